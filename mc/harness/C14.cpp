// C14: YAML in.
#include "../model.hpp"
#include "../locale.hpp"
#include <regex>
#include <yaml.h>
using namespace mdl;
using mc::choose; using mc::pick;
namespace {

// ---- scalar resolution ----
bool digits(std::string const& s, size_t& p) { size_t b = p; while (p < s.size() && s[p] >= '0' && s[p] <= '9') ++p; return p > b; }
// Spellings on which the YAML versions and their users disagree: any resolution is accepted, but the same one everywhere.
bool contested(std::string const& s) {
  static char const* const w[] = {"", "~", "Null", "NULL", "True", "TRUE", "False", "FALSE", "yes", "no", "on", "off", "y", "n", "Yes", "No", "On", "Off", "YES", "NO", "ON", "OFF", "Y", "N", "=", "<<"};
  for (auto x : w) if (s == x) return true;
  static std::regex const r("[-+]?0[0-9_]+(\\.[0-9_]*)?([eE][-+]?[0-9]+)?|[-+]?0[obOB][0-9_]+|[-+]?0[xX][0-9a-fA-F_.]*([pP][-+]?[0-9]+)?|[-+]?[0-9][0-9_]*(:[0-9_]+)*(\\.[0-9_]*)?|[-+]?[0-9][0-9_]*\\.[0-9_]*([eE][-+]?[0-9]+)?|[-+]?\\.[0-9_]+([eE][-+]?[0-9]+)?|[-+]?\\.(inf|Inf|INF|nan|NaN|NAN)");
  return std::regex_match(s, r);
}
// Sets *free when the spelling is contested.
Val resolve(std::string const& s, bool& free) {
  if (s == "null") return Val::null(); if (s == "true" || s == "false") return Val::boolean(s == "true");
  size_t p = 0; if (p < s.size() && (s[p] == '+' || s[p] == '-')) ++p; size_t b = p;
  if (digits(s, p) && (s[b] != '0' || p == b + 1)) {
    if (p == s.size()) { errno = 0; long long v = strtoll(s.c_str(), nullptr, 10); if (!errno) return Val::integer(v); free = true; return {}; }
    size_t q = p; bool ok = true; if (s[q] == '.') { ++q; digits(s, q); } if (q < s.size() && (s[q] == 'e' || s[q] == 'E')) { ++q; if (q < s.size() && (s[q] == '+' || s[q] == '-')) ++q; ok = digits(s, q); }
    if (ok && q == s.size()) { errno = 0; double d = strtod_l(s.c_str(), nullptr, mc::locale(0)); if (!errno) return Val::decimal(d); free = true; return {}; }
    if (s[b] == '0' && p == b + 1 && s[p] == 'x' && s.size() > p + 1 && s.size() < p + 16 && s.find_first_not_of("0123456789abcdefABCDEF", p + 1) == std::string::npos) return Val::integer(strtoll(s.c_str(), nullptr, 16));
  }
  if (contested(s)) { free = true; return {}; }
  return Val::str(s);
}

// ---- oracle: recursive descent over the parser's events ----
struct No {};                                      // must be rejected
struct Oracle {
  yaml_parser_t p; yaml_event_t e; bool have = false; int depth = 0; std::vector<std::string> frees; std::string const& text;
  Oracle(std::string const& t) : text(t) { yaml_parser_initialize(&p); yaml_parser_set_input_string(&p, (unsigned char const*) t.data(), t.size()); }
  ~Oracle() { if (have) yaml_event_delete(&e); yaml_parser_delete(&p); }
  yaml_event_type_t next() { if (have) { yaml_event_delete(&e); have = false; } if (!yaml_parser_parse(&p, &e)) throw No {}; have = true; return e.type; }
  std::string scalar() { return std::string((char const*) e.data.scalar.value, e.data.scalar.length); }
  // the current event starts the node
  Val node(bool key) {
    switch (e.type) {
      case YAML_SCALAR_EVENT: { if (key || e.data.scalar.style != YAML_PLAIN_SCALAR_STYLE) return Val::str(scalar()); std::string s = scalar(); bool f = false; Val v = resolve(s, f); if (f) v = Val::str("\x01?" + s); return v; }
      case YAML_SEQUENCE_START_EVENT: { if (key) throw No {}; Val r = Val::arr(); while (next() != YAML_SEQUENCE_END_EVENT) r.a.push_back(node(false)); return r; }
      case YAML_MAPPING_START_EVENT: { if (key) throw No {}; Val r = Val::obj(); while (next() != YAML_MAPPING_END_EVENT) { Val k = node(true); if (k.s.size() > 65535) throw No {}; next(); Val v = node(false); r.o[k.s] = v; } return r; }
      default: throw No {}; // aliases
    }
  }
  Val document() {
    next(); if (next() == YAML_STREAM_END_EVENT) return Val::obj(); // an empty stream is the empty object
    next(); if (e.type == YAML_SCALAR_EVENT) throw No {}; Val v = node(false); next(); return v;
  }
};
// got agrees with want, whose contested scalars are marked.
bool agrees(Val const& g, Val const& w) {
  if (w.k == Val::Str && w.s.compare(0, 2, "\x01?") == 0) { if (g.k == Val::Str) return g.s == w.s.substr(2); return g.k != Val::Arr && g.k != Val::Obj; }
  if (g.k != w.k) return false;
  if (w.k == Val::Arr) { if (g.a.size() != w.a.size()) return false; for (size_t i = 0; i < g.a.size(); ++i) if (!agrees(g.a[i], w.a[i])) return false; return true; }
  if (w.k == Val::Obj) { if (g.o.size() != w.o.size()) return false; auto j = w.o.begin(); for (auto& x : g.o) { if (x.first != j->first || !agrees(x.second, j->second)) return false; ++j; } return true; }
  return same(g, w);
}
void judge(std::string const& text, Val const* rendered = nullptr) {
  MC_NOTE("parse " + mc::show(text, 300)); mc::step(); bool ok = true; Val want; try { Oracle o(text); want = o.document(); } catch (No) { ok = false; }
  if (rendered) { MC_CHECK(ok && same(want, *rendered), "oracle", "the renderer and the oracle disagree on " + mc::show(text, 400)); }
  std::unique_ptr<char[]> exact(new char[text.size()]); memcpy(exact.get(), text.data(), text.size()); dart::shim::string_view ev(exact.get(), text.size());
  dart::heap h; dart::buffer b; dart::packet pf, pd; dart::unsafe_heap uh;
  Err eh = attempt([&] { h = dart::heap::from_yaml(ev); }), ed = attempt([&] { pd = dart::packet::from_yaml(ev, false); }), eu = attempt([&] { uh = dart::unsafe_heap::from_yaml(ev); });
  Err eb = attempt([&] { b = dart::buffer::from_yaml(ev); }), ef = attempt([&] { pf = dart::packet::from_yaml(ev, true); });
  MC_CHECK(eh == ed && eh == eu && eb == ef, "forms differ", std::string("parsing ") + mc::show(text, 300) + " gives " + name(eh) + " to the dynamic value, " + name(ed) + " to the dynamic packet, " + name(eu) + " with the other counter, " + name(eb) + " to the buffer, " + name(ef) + " to the finalized packet");
  if (!ok) { MC_CHECK(eh != Err::none && eb != Err::none, "accepted", "parsing " + mc::show(text, 300) + ", which must be refused, gives " + (eh == Err::none ? dump(read(h)) : "a finalized value")); MC_CHECK(eh != Err::memory && eh != Err::other && eb != Err::memory, "wrong error", name(eh)); mc::state(mc::mix(5, mc::hash_str(text) & 4095)); return; }
  MC_CHECK(eh == Err::none, "rejected", "parsing " + mc::show(text, 300) + " gives " + name(eh)); Val g = read(h);
  MC_CHECK(agrees(g, want), "wrong value", "parsing " + mc::show(text, 300) + " gives " + dump(g) + ", expected " + dump(want));
  expect(pd, g, "dynamic packet"); expect(uh, g, "value with the other counter");
  if (want.k == Val::Obj) { MC_CHECK(eb == Err::none, "rejected (finalized)", "parsing " + mc::show(text, 300) + " to a buffer gives " + name(eb)); expect(b, g, "finalized value"); expect(pf, g, "finalized packet"); MC_CHECK(dart::is_valid(b.get_bytes()), "invalid buffer", "the buffer does not validate"); }
  else MC_CHECK(eb == Err::type, "root sequence (finalized)", std::string("a root sequence gives ") + name(eb));
  mc::nontrivial(); mc::state(hash(g));
}

MC_SPACE_X(chars, "characters", "every string of 0..5 (thorough 6) characters over 16 that matter to YAML: a 1 : - [ ] { } , space newline quote apostrophe # & *", 3, true) {
  static char const c[] = "a1:-[]{}, \n\"'#&*"; int n = choose(mc::thorough() ? 7 : 6); std::string s; for (int i = 0; i < n; ++i) s += c[choose(16)]; judge(s);
}
MC_SPACE_X(pieces, "pieces", "every sequence of up to 5 (thorough 6) of 16 pieces: entries, keys, indentation, flow brackets, scalars, complex keys, anchors and aliases, document markers, block scalars, tags", 3, true) {
  static char const* t[] = {"a: ", "b:\n", "- ", "\n", "  ", "[", "]", "{", "}", ", ", "1", "? ", "*x", "&x ", "---\n", "|\n"}; int n = choose(mc::thorough() ? 7 : 6); std::string s; for (int i = 0; i < n; ++i) s += t[choose(16)]; judge(s);
}
MC_SPACE_X(seqs, "lines", "every document of up to 5 (thorough 6) lines out of 11, indented 0..4 columns as written", 3, true) {
  static char const* t[] = {"a:\n", "b: 1\n", "  c: x\n", "  d:\n", "    e: 2.5\n", "- f\n", "  - g\n", "  - h: 1\n", "    i: null\n", "    - j\n", "- - k\n"}; int n = choose(mc::thorough() ? 7 : 6); std::string s; for (int i = 0; i < n; ++i) s += t[choose(11)]; judge(s);
}
MC_SPACE_X(nums, "scalar-spellings", "every string of 1..5 (thorough 6) characters over 0 1 9 - + . e E x n as a plain field value, and the same in single and double quotes up to 4", 3, true) {
  static char const c[] = "019-+.eExn"; int q = choose(3), n = 1 + choose(mc::thorough() ? 6 : q ? 4 : 5); std::string s; for (int i = 0; i < n; ++i) s += c[choose(10)]; static char const* d[] = {"", "'", "\""}; judge(std::string("k: ") + d[q] + s + d[q] + "\n");
}
std::vector<std::string> const& words() { static std::vector<std::string> const v {"null", "true", "false", "nul", "nulll", "truE", "tru", "trueish", "fals", "falsey", "nan", "inf", "t", "f", "0", "-0", "+0", "1", "-1", "+1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616",
  "1.5", "-1.5", "+1.5", "1.", "1e5", "1E5", "1e+5", "1e-5", "1.5e300", "1e309", "1e-400", "0x10", "0xff", "0x", "0xg", "-0x1", "010", "09", "08.5", "0o7", "1_000", "1:30", "1a", "1 2", "1-2", "--1", "+-1", "-", "+", ".5", "-.5", ".inf", ".nan", "~", "yes", "no", "1.5.5", "1e5e5", "1e5.5", "1 ", "0.1", "100.25", "4.9e-324", "1.7976931348623157e308", "0.30000000000000004", "9007199254740993", "2020-01-01", "a b", "a\\nb", "x'y", "x:y", "x#y", "é", "\xf0\x9f\x98\x80", "a-b", "#c"}; return v; }
MC_SPACE_X(locales, "locales", "every string of 1..5 (thorough 6) characters over 0 1 - . , e E and the Arabic decimal separator as a plain field value, in processes whose locale writes decimals with a comma, and with a separator of two bytes", 2, true) {
  static char const* c[] = {"0", "1", "-", ".", ",", "e", "E", "\xd9\xab"}; mc::Locale locale(1 + choose(2)); int n = 1 + choose(mc::thorough() ? 6 : 5); std::string s; for (int i = 0; i < n; ++i) s += c[choose(8)]; judge("k: " + s + "\nl: 1\n");
}
MC_SPACE(spell, "words", "76 boundary spellings x 5 quoting styles x 5 positions (block value, flow value, block element, flow element, key)") {
  std::string w = pick(words()); int st = choose(5), pos = choose(5); std::string s = st == 0 ? w : st == 1 ? "'" + w + "'" : st == 2 ? "\"" + w + "\"" : st == 3 ? "|\n  " + w + "\n" : ">-\n  " + w + "\n";
  switch (pos) { case 0: s = "k: " + s + "\n"; break; case 1: s = "{k: " + s + " , l: 1}"; break; case 2: s = "- " + s + "\n"; break; case 3: s = "k: [" + s + " , " + s + " ]"; break; default: s = s + ": v\n"; } judge(s);
}
MC_SPACE(local_words, "words under other locales", "the 76 boundary spellings, plain, as block and flow value, in the two other locales") {
  mc::Locale locale(1 + choose(2)); std::string w = pick(words()); judge(mc::flip() ? "k: " + w + "\n" : "{k: " + w + " , l: 1}");
}
// ---- rendered trees ----
struct Scalar { char const* text; Val v; };
std::vector<Scalar> const& leaf() { static std::vector<Scalar> const v {{"x", Val::str("x")}, {"null", Val::null()}, {"-12", Val::integer(-12)}, {"0.5", Val::decimal(.5)}, {"true", Val::boolean(true)}, {"'1'", Val::str("1")}, {"\"a\\tb\\u00e9\\0\"", Val::str(std::string("a\tb\xc3\xa9\0", 6))}, {"'it''s'", Val::str("it's")}}; return v; }
std::vector<std::pair<char const*, char const*>> const& keyl() { static std::vector<std::pair<char const*, char const*>> const v {{"a", "a"}, {"'b c'", "b c"}, {"1", "1"}, {"null", "null"}, {"\"\"", ""}}; return v; }
// Renders a node after its introducer: out ends right after "key:" or "-"; block nodes start on the next line.
void node(std::string& out, Val& v, int& budget, int depth, int ind, bool flow, bool in_seq, int nl) {
  int k = choose(depth && budget > 0 ? 4 : 1); // scalar, sequence, mapping, the other style
  if (k == 0) { auto& l = leaf()[choose(nl)]; out += std::string(in_seq || !flow ? " " : " ") + l.text + (flow ? "" : "\n"); v = l.v; return; }
  bool seq = k == 1 || (k == 3 && choose(2)), fl = flow || k == 3; if (k == 3 && flow) mc::prune();
  int n = choose(std::min(budget, 2) + 1); budget -= n; v = seq ? Val::arr() : Val::obj(); if (!n && !fl) mc::prune(); // empty collections exist in flow style only
  if (fl) out += seq ? " [" : " {"; else if (!in_seq) out += "\n";
  for (int i = 0; i < n; ++i) {
    Val e; if (fl) { if (i) out += ","; } else if (i || !in_seq) out += std::string(ind, ' '); else out += " ";
    if (seq) { if (!fl) out += "-"; node(out, e, budget, depth - 1, ind + 2, fl, !fl, nl); v.a.push_back(e); }
    else { auto& key = keyl()[(choose(3) + i * 2) % 5]; if (v.o.count(key.second)) mc::prune(); out += std::string(fl ? " " : "") + key.first + ":"; node(out, e, budget, depth - 1, ind + 2, fl, false, nl); v.o[key.second] = e; }
  }
  if (fl) { out += seq ? " ]" : " }"; if (!flow) out += "\n"; }
}
MC_SPACE_X(trees, "rendered-trees", "every document of at most 4 (thorough 5) nodes below the root, depth 3, mixing block and flow style at every level, 4 (thorough 8) scalar spellings, 5 keys; the renderer, the event oracle and the library agree", 4, true) {
  int budget = mc::thorough() ? 5 : 4, nl = mc::thorough() ? 5 : 4; std::string out; Val v; int root = choose(2), n = 1 + choose(2); budget -= n; v = root ? Val::arr() : Val::obj();
  for (int i = 0; i < n; ++i) { Val e; if (root) { out += "-"; node(out, e, budget, 2, 2, false, true, nl); v.a.push_back(e); } else { auto& key = keyl()[i * 2 + choose(2)]; out += std::string(key.first) + ":"; node(out, e, budget, 2, 2, false, false, nl); v.o[key.second] = e; } }
  judge(out, &v);
}
MC_SPACE(leaves, "rendered-leaves", "every pair of the 8 leaves in block and flow mappings and sequences, plus comments and blank lines between") {
  auto& a = pick(leaf()); auto& b = pick(leaf()); std::string gap = choose(2) ? "\n# comment: x\n\n" : ""; Val v; std::string s; switch (choose(4)) { case 0: s = std::string("a: ") + a.text + "\n" + gap + "b: " + b.text + "\n"; v = Val::obj({{"a", a.v}, {"b", b.v}}); break; case 1: s = std::string("- ") + a.text + "\n" + gap + "- " + b.text + "\n"; v = Val::arr({a.v, b.v}); break;
    case 2: s = std::string("{a: ") + a.text + "," + gap + " b: " + b.text + "}"; v = Val::obj({{"a", a.v}, {"b", b.v}}); break; default: s = std::string("[ ") + a.text + " ," + gap + " " + b.text + " ]"; v = Val::arr({a.v, b.v}); } judge(s, &v);
}
std::vector<std::string> const& docs() { static std::vector<std::string> const v {"a: 1\nb: [x, 2.5, null]\nc:\n  d: true\n  e:\n    - f\n    - g: h\n", "{\"k\": \"v\\n\", 'l': {m: []}}\n", "- a\n- - b\n  - c\n- {}\n", "---\nx: |\n  one\n  two\ny: >\n  three\n  four\n...\n", "a: &x 1\nb: *x\n", "? a\n: b\n? [c]\n: d\n", "%YAML 1.1\n---\na: b\n", "# only a comment\n", "k: \"\\x41\\u00e9\\U0001F600\\0\"\n", "a:\n- b\n-\n  c: d\n"}; return v; }
MC_SPACE(edits, "single-edits", "10 documents with every single character deleted, replaced by or preceded by each of 30 characters, and cut at every position") {
  std::string s = pick(docs()); int op = choose(4); static std::string const c = std::string("{}[],:-?\"' \n\t#&*!|>%@`~0a\\x", 27) + std::string("\0\xff\x01", 3); int at = choose((int) s.size());
  if (op == 0) s.erase(at, 1); else if (op == 1) s[at] = c[choose((int) c.size())]; else if (op == 2) s.insert(at, 1, c[choose((int) c.size())]); else s.resize(at); judge(s);
}
MC_SPACE(dups, "structures", "mappings with repeated keys, sequences in mappings in sequences to depth 30 in block and flow style, and 0..60 entries") {
  int k = choose(5), n = choose(31); std::string s; if (k == 0) { for (int i = 0; i < n; ++i) s += std::string(i * 2, ' ') + "a:\n"; s += std::string(n * 2, ' ') + "z: 1\n"; } else if (k == 1) { s = "r: "; for (int i = 0; i < n; ++i) s += i % 2 ? "[" : "{a: "; s += "1"; for (int i = n; i--;) s += i % 2 ? "]" : "}"; }
  else if (k == 2) { for (int i = 0; i < n * 2; ++i) s += "k" + std::to_string(i) + ": " + std::to_string(i * i) + "\n"; } else if (k == 3) { s = "a:\n"; for (int i = 0; i < n * 2; ++i) s += "- v" + std::to_string(i) + "\n"; } else { s = "a: "; for (int i = 0; i < n; ++i) s += "{b: 1, c: "; s += "[x, {y: z}]"; for (int i = 0; i < n; ++i) s += ", d: 2}"; } judge(s);
}
MC_SPACE(sizes, "sizes", "plain, quoted and block scalars and keys of lengths 0..300 step 1 and around 1024, 65535 and 65536") {
  int k = choose(5), i = choose(310); static int const l[] = {1020, 1023, 1024, 1025, 65534, 65535, 65536, 65537, 70000}; int n = i < 301 ? i : l[i - 301]; std::string x = rep('z', n); judge(k == 0 ? "k: " + x + "\nl: 1\n" : k == 1 ? "k: '" + x + "'\nl: 1\n" : k == 2 ? "k: |\n  " + x + "\nl: 1\n" : k == 3 ? "'" + x + "': 1\n" : "? " + x + "\n: 1\n");
}
}
