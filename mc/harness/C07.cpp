// C07: iteration.
#include "../model.hpp"
using namespace mdl;
using mc::choose; using mc::pick;

namespace {

using KV = std::pair<std::string, Val>;
// The elements in the documented order; arrays have empty keys.
std::vector<KV> elements(Val const& v) { std::vector<KV> r; for (auto& e : v.a) r.emplace_back("", e); for (auto& e : v.o) r.emplace_back(e.first, e.second); return r; }
std::string keystr(Val const& k) { MC_CHECK(k.k == Val::Str, "key type", "a key is not a string but " + dump(k)); return k.s; }

char const* rep_name[] = {"heap", "dynamic packet", "finalized packet", "buffer", "heap view", "buffer view", "dynamic packet view", "finalized packet view", "unsafe heap", "unsafe buffer", "typed heap", "typed packet", "typed buffer"};
enum { kReps = 13 };
template <class F> void with_rep(int rep, Val const& v, F&& f) {
  bool obj = v.k == Val::Obj; Val w = Val::obj({{"v", v}});
  switch (rep) {
    case 0: f(build<dart::heap>(v)); break;
    case 1: f(build<dart::packet>(v)); break;
    case 2: { auto p = build<dart::packet>(w); p.finalize(); dart::packet e = p["v"]; f(e); break; }
    case 3: { auto b = build<dart::heap>(w).finalize(); auto e = b["v"]; f(e); break; }
    case 4: { auto h = build<dart::heap>(v); dart::heap::view x = h; f(x); break; }
    case 5: { auto b = build<dart::heap>(w).finalize(); auto e = b["v"]; dart::buffer::view x = e; f(x); break; }
    case 6: { auto h = build<dart::packet>(v); dart::packet::view x = h; f(x); break; }
    case 7: { auto p = build<dart::packet>(w); p.finalize(); dart::packet e = p["v"]; dart::packet::view x = e; f(x); break; }
    case 8: f(build<dart::unsafe_heap>(v)); break;
    case 9: { auto b = build<dart::unsafe_heap>(w).finalize(); auto e = b["v"]; f(e); break; }
    case 10: if (obj) { dart::heap::object o(build<dart::heap>(v)); f(o); } else { dart::heap::array o(build<dart::heap>(v)); f(o); } break;
    case 11: if (obj) { dart::packet::object o(build<dart::packet>(v)); f(o); } else { dart::packet::array o(build<dart::packet>(v)); f(o); } break;
    default: { auto b = build<dart::heap>(w).finalize(); auto e = b["v"]; if (obj) { dart::buffer::object o(e); f(o); } else { dart::buffer::array o(e); f(o); } break; }
  }
}

void same_list(std::vector<KV> const& got, std::vector<KV> const& want, char const* what, bool keys, bool vals, int rep) {
  auto text = [&] (std::vector<KV> const& l) { std::string s; size_t n = 0; for (auto& e : l) { if (++n > 10) { s += "..."; break; } if (keys) s += mc::show(e.first) + ":"; if (vals) s += dump(e.second); s += " "; } return s; };
  bool ok = got.size() == want.size();
  for (size_t i = 0; ok && i < got.size(); ++i) ok = (!keys || got[i].first == want[i].first) && (!vals || same(got[i].second, want[i].second));
  if (!ok) mc::fail(std::string(what) + " on " + rep_name[rep], std::string(what) + " on " + rep_name[rep] + " visits " + text(got) + "(" + std::to_string(got.size()) + "), expected " + text(want) + "(" + std::to_string(want.size()) + ")");
  mc::step(got.size());
}
std::vector<KV> reversed(std::vector<KV> v) { std::reverse(v.begin(), v.end()); return v; }
enum { kLimit = 5000 };

// Modes shared by arrays and objects.
template <class R> void value_modes(R const& r, std::vector<KV> const& el, int rep, int mode) {
  std::vector<KV> got;
  switch (mode) {
    case 0: for (auto it = r.begin(); it != r.end() && got.size() < kLimit; ++it) got.emplace_back("", read(*it)); same_list(got, el, "begin..end", false, true, rep); break;
    case 1: for (auto it = r.rbegin(); it != r.rend() && got.size() < kLimit; ++it) got.emplace_back("", read(*it)); same_list(got, reversed(el), "rbegin..rend", false, true, rep); break;
    case 2: for (auto x : r) { got.emplace_back("", read(x)); if (got.size() > kLimit) break; } same_list(got, el, "range for", false, true, rep); break;
    case 3: for (auto it = r.cbegin(); it != r.cend() && got.size() < kLimit; it++) got.emplace_back("", read(*it)); same_list(got, el, "cbegin..cend", false, true, rep); break;
    case 4: { auto it = r.end(); while (it != r.begin() && got.size() < kLimit) { --it; got.emplace_back("", read(*it)); } same_list(got, reversed(el), "end--..begin", false, true, rep); break; }
    case 5: { auto it = r.end(); while (it != r.begin() && got.size() < kLimit) { it--; got.emplace_back("", read(*it)); } same_list(got, reversed(el), "end-- (post)", false, true, rep); break; }
    case 6: { for (auto& x : r.values()) got.emplace_back("", read(x)); same_list(got, el, "values()", false, true, rep); break; }
    case 7: { auto n = std::distance(r.begin(), r.end()); MC_CHECK((size_t) n == el.size(), "distance", "std::distance disagrees with the number of elements"); break; }
  }
}
template <class R> void key_modes(R const& r, std::vector<KV> const& el, int rep, int mode) {
  std::vector<KV> got;
  switch (mode) {
    case 0: for (auto it = r.key_begin(); it != r.key_end() && got.size() < kLimit; ++it) got.emplace_back(keystr(read(*it)), Val()); same_list(got, el, "key_begin..key_end", true, false, rep); break;
    case 1: for (auto it = r.rkey_begin(); it != r.rkey_end() && got.size() < kLimit; ++it) got.emplace_back(keystr(read(*it)), Val()); same_list(got, reversed(el), "rkey_begin..rkey_end", true, false, rep); break;
    case 2: { auto kv = r.kvbegin(); auto& k = std::get<0>(kv); auto& v = std::get<1>(kv); while (v != r.end() && got.size() < kLimit) { got.emplace_back(keystr(read(*k)), read(*v)); ++k; ++v; } MC_CHECK(k == r.key_end(), "kv end", "keys and values do not end together"); same_list(got, el, "kvbegin", true, true, rep); break; }
    case 3: { auto kv = r.rkvbegin(), ke = r.rkvend(); auto& k = std::get<0>(kv); auto& v = std::get<1>(kv); while (v != std::get<1>(ke) && got.size() < kLimit) { got.emplace_back(keystr(read(*k)), read(*v)); ++k; ++v; } MC_CHECK(k == std::get<0>(ke), "rkv end", "keys and values do not end together"); same_list(got, reversed(el), "rkvbegin", true, true, rep); break; }
    case 4: { for (auto& x : r.keys()) got.emplace_back(keystr(read(x)), Val()); same_list(got, el, "keys()", true, false, rep); break; }
    case 5: { auto kv = r.kvend(); auto& k = std::get<0>(kv); auto& v = std::get<1>(kv); while (v != r.begin() && got.size() < kLimit) { --k; --v; got.emplace_back(keystr(read(*k)), read(*v)); } MC_CHECK(k == r.key_begin(), "kv begin", "keys and values do not start together"); same_list(got, reversed(el), "kvend--", true, true, rep); break; }
    case 6: { for (auto it = r.key_begin(); it != r.key_end() && got.size() < kLimit; ++it) { auto k = *it; got.emplace_back(keystr(read(k)), read(r.get(k))); } same_list(got, el, "lookup by iterated key", true, true, rep); break; }
    case 7: { for (auto& e : el) { auto it = r.find(sv(e.first)); auto kt = r.find_key(sv(e.first)); MC_CHECK(it != r.end() && kt != r.key_end(), "find", "find misses a key"); got.emplace_back(keystr(read(*kt)), read(*it)); }
      same_list(got, el, "find", true, true, rep);
      // and iteration continues correctly from a found position
      for (size_t i = 0; i < el.size(); i += 1 + el.size() / 8) { auto it = r.find(sv(el[i].first)); size_t n = 0; for (; it != r.end() && n < kLimit; ++it) ++n; MC_CHECK(n == el.size() - i, "continue from find", "iteration from find() visits " + std::to_string(n)); }
      break; }
  }
}
template <class R> void object_only(R const& r, std::vector<KV> const& el, int rep, int mode, int) { key_modes(r, el, rep, mode); }

std::vector<std::string> const& hard_keys() { static std::vector<std::string> const k {"", "a", "b", "\xff", std::string("\0", 1), "aa", "ab", "a\xff", std::string("a\0", 2), "\xff" "a", "abc", rep('q', 254), rep('q', 255), rep('q', 256), rep('q', 255) + "r"}; return k; }
Val value_n(int i) { auto& l = layout_values(); return l[(i * 7 + 3) % l.size()]; }

template <class R> auto run_mode(R const& r, std::vector<KV> const& el, int rep, int mode, bool obj, int) -> decltype(r.key_begin(), void()) { if (mode < 8) value_modes(r, el, rep, mode); else if (!obj) mc::prune(); else key_modes(r, el, rep, mode - 8); }
template <class R> void run_mode(R const& r, std::vector<KV> const& el, int rep, int mode, bool, long) { if (mode < 8) value_modes(r, el, rep, mode); else mc::prune(); }
void check_mode(Val const& v, int rep, int mode) {
  auto el = elements(v);
  with_rep(rep, v, [&] (auto const& r) { run_mode(r, el, rep, mode, v.k == Val::Obj, 0); });
  mc::state(mc::mix(hash(v), rep * 16 + mode)); mc::nontrivial();
}

MC_SPACE(sets, "key-sets", "every set of up to 3 (thorough 4) of 15 hard keys, 13 representations, 16 iteration modes") {
  int n = choose(mc::thorough() ? 5 : 4); Val v = Val::obj(); int from = 0;
  for (int i = 0; i < n; ++i) { int left = (int) hard_keys().size() - from; if (left <= 0) mc::prune(); int k = from + choose(left); from = k + 1; v.o[hard_keys()[k]] = value_n(i + k); }
  int rep = choose(kReps), mode = choose(16); MC_NOTE(dump(v) + " as " + rep_name[rep] + " mode " + std::to_string(mode)); check_mode(v, rep, mode);
}
MC_SPACE(arrays, "arrays", "every array of up to 2 (thorough 3) of 17 layout values, 13 representations, 8 modes") {
  int n = choose(mc::thorough() ? 4 : 3); Val v = Val::arr(); for (int i = 0; i < n; ++i) v.a.push_back(pick(layout_values()));
  int rep = choose(kReps), mode = choose(8); MC_NOTE(dump(v) + " as " + rep_name[rep] + " mode " + std::to_string(mode)); check_mode(v, rep, mode);
}
MC_SPACE(sizes, "sizes", "arrays and objects of every size 0..40 (thorough 0..300), 13 representations, 16 modes") {
  bool obj = mc::flip(); int n = choose(mc::thorough() ? 301 : 41); Val v = obj ? Val::obj() : Val::arr();
  for (int i = 0; i < n; ++i) { if (obj) v.o["k" + std::to_string(i * 37 % 1000)] = Val::integer(i); else v.a.push_back(Val::integer(i)); }
  int rep = choose(kReps), mode = choose(16); MC_NOTE("size " + std::to_string(n) + " as " + rep_name[rep] + " mode " + std::to_string(mode)); check_mode(v, rep, mode);
}

// ---- walks: two iterators moved about ----
template <class R, class It> void walk(R const& r, It b, It e, std::vector<Val> const& el, int depth, char const* what) {
  (void) r; long n = (long) el.size(); It it[2] = {b, e}; long pos[2] = {0, n};
  auto check = [&] {
    for (int i = 0; i < 2; ++i) {
      MC_CHECK((it[i] == e) == (pos[i] == n) && (it[i] != e) == (pos[i] != n), std::string(what) + " end", "comparison with end is wrong at position " + std::to_string(pos[i]));
      MC_CHECK((it[i] == b) == (pos[i] == 0), std::string(what) + " begin", "comparison with begin is wrong at position " + std::to_string(pos[i]));
      if (pos[i] < n) { Val g = read(*it[i]); if (!same(g, el[pos[i]])) mc::fail(std::string(what) + " element", "iterator at " + std::to_string(pos[i]) + " gives " + dump(g) + ", expected " + dump(el[pos[i]])); }
    }
    MC_CHECK((it[0] == it[1]) == (pos[0] == pos[1]), std::string(what) + " equality", "iterator equality is wrong");
    mc::state(mc::mix(pos[0] * 16 + pos[1], mc::hash_str(what)));
  };
  check();
  for (int d = 0; d < depth; ++d) {
    int op = choose(14), i = op % 2; mc::step();
    switch (op / 2) {
      case 0: if (pos[i] >= n) mc::prune(); MC_NOTE("++" + std::to_string(i)); ++it[i]; ++pos[i]; break;
      case 1: if (pos[i] <= 0) mc::prune(); MC_NOTE("--" + std::to_string(i)); --it[i]; --pos[i]; break;
      case 2: { if (pos[i] >= n) mc::prune(); MC_NOTE(std::to_string(i) + "++"); It old = it[i]++; Val g = read(*old); MC_CHECK(same(g, el[pos[i]]), std::string(what) + " post increment", "it++ does not return the old position"); ++pos[i]; break; }
      case 3: { if (pos[i] <= 0) mc::prune(); MC_NOTE(std::to_string(i) + "--"); It old = it[i]--; MC_CHECK((old == e) == (pos[i] == n), std::string(what) + " post decrement", "it-- does not return the old position"); --pos[i]; break; }
      case 4: MC_NOTE("copy onto " + std::to_string(i)); it[i] = it[1 - i]; pos[i] = pos[1 - i]; break;
      case 5: { MC_NOTE("move through a temporary " + std::to_string(i)); It tmp = std::move(it[i]); it[i] = std::move(tmp); break; }
      case 6: { if (i) { MC_NOTE("swap"); std::swap(it[0], it[1]); std::swap(pos[0], pos[1]); } else { MC_NOTE("self assign"); It& self = it[0]; it[0] = self; } break; }
    }
    check();
  }
}
std::vector<Val> vals_of(Val const& v) { std::vector<Val> r; for (auto& e : elements(v)) r.push_back(e.second); return r; }
std::vector<Val> keys_of(Val const& v) { std::vector<Val> r; for (auto& e : elements(v)) r.push_back(Val::str(e.first)); return r; }
template <class T> std::vector<T> rev(std::vector<T> v) { std::reverse(v.begin(), v.end()); return v; }
template <class R> auto walk_mode(R const& r, Val const& v, int mode, int depth, int) -> decltype(r.key_begin(), void()) {
  switch (mode) {
    case 0: walk(r, r.begin(), r.end(), vals_of(v), depth, "values"); break;
    case 1: walk(r, r.rbegin(), r.rend(), rev(vals_of(v)), depth, "reverse values"); break;
    case 2: if (v.k != Val::Obj) mc::prune(); walk(r, r.key_begin(), r.key_end(), keys_of(v), depth, "keys"); break;
    default: if (v.k != Val::Obj) mc::prune(); walk(r, r.rkey_begin(), r.rkey_end(), rev(keys_of(v)), depth, "reverse keys"); break;
  }
}
template <class R> void walk_mode(R const& r, Val const& v, int mode, int depth, long) {
  if (mode == 0) walk(r, r.begin(), r.end(), vals_of(v), depth, "values"); else if (mode == 1) walk(r, r.rbegin(), r.rend(), rev(vals_of(v)), depth, "reverse values"); else mc::prune();
}
MC_SPACE_X(walks, "walks", "every sequence of 4 (thorough 5) of 14 iterator operations on two iterators over a 3-element array and object, 4 iteration kinds, 13 representations", 3, true) {
  Val v = mc::flip() ? Val::obj({{"b", Val::str("one long enough to need an allocation")}, {"", Val::null()}, {"\xff", Val::arr({Val::integer(1)})}}) : Val::arr({Val::obj({{"x", Val::integer(1)}}), Val::str("two long enough to need an allocation"), Val::decimal(0.5)});
  int rep = choose(kReps), mode = choose(4); MC_NOTE(dump(v) + " as " + rep_name[rep] + " kind " + std::to_string(mode));
  with_rep(rep, v, [&] (auto const& r) { walk_mode(r, v, mode, mc::thorough() ? 5 : 4, 0); }); mc::nontrivial();
}

// ---- lifetime: the value is kept alive by the iterator itself (finalized) or by another handle (dynamic) ----
MC_SPACE(life, "iterator-lifetime", "iterators outliving the handle they came from: 4 ways to drop it x 3 positions x 2 shapes x 4 representations") {
  bool obj = mc::flip(); Val v = obj ? Val::obj({{"a", Val::str("one long enough to need an allocation")}, {"b", Val::arr({Val::integer(7), Val::str("inner string long enough to allocate")})}, {"c", Val::null()}}) : Val::arr({Val::str("one long enough to need an allocation"), Val::arr({Val::integer(7)}), Val::null()});
  auto el = vals_of(v); int at = choose(3), drop = choose(4), rep = choose(4); MC_NOTE(dump(v) + " position " + std::to_string(at) + " drop " + std::to_string(drop) + " as " + std::to_string(rep));
  auto go = [&] (auto handle, bool self_owning) {
    using R = decltype(handle); using It = typename R::iterator; auto keep = self_owning ? R() : handle;
    It it = handle.begin(), end = handle.end(); for (int i = 0; i < at; ++i) ++it;
    switch (drop) { case 0: handle = R(); break; case 1: { R tmp = std::move(handle); (void) tmp; break; } case 2: handle = R::make_null(); break; default: { R other = build<R>(Val::arr({})); handle = other; break; } }
    for (int i = at; i < 3; ++i, ++it) { MC_CHECK(it != end, "early end", "iterator reached the end early"); Val g = read(*it); MC_CHECK(same(g, el[i]), "iterator element", "iterator gives " + dump(g) + ", expected " + dump(el[i])); mc::step(); }
    MC_CHECK(it == end, "late end", "iterator does not reach the end");
    --it; auto elem = *it; it = It(); end = It(); keep = R(); expect(elem, el[2], "element after iterators are gone");
  };
  auto go_buf = [&] (dart::buffer b) {
    using It = dart::buffer::iterator; It it = b.begin(), end = b.end(); for (int i = 0; i < at; ++i) ++it; dart::buffer held;
    if (drop == 0) b = dart::buffer(); else if (drop == 1) { dart::buffer t = std::move(b); } else if (drop == 2) b = dart::buffer::make_null(); else b = build<dart::heap>(Val::obj()).finalize();
    for (int i = at; i < 3; ++i, ++it) { MC_CHECK(it != end, "early end", "iterator reached the end early"); Val g = read(*it); MC_CHECK(same(g, el[i]), "iterator element", "iterator gives " + dump(g) + ", expected " + dump(el[i])); held = *it; mc::step(); }
    it = It(); end = It(); expect(held, el[2], "element after iterators are gone");
  };
  switch (rep) {
    case 0: go(build<dart::heap>(v), false); break;
    case 1: go(build<dart::packet>(v), false); break;
    case 2: { auto p = build<dart::packet>(Val::obj({{"v", v}})); p.finalize(); dart::packet e = p["v"]; p = dart::packet(); go(std::move(e), true); break; }
    default: { auto b = build<dart::heap>(Val::obj({{"v", v}})).finalize(); auto e = b["v"]; b = dart::buffer(); go_buf(std::move(e)); break; }
  }
  mc::nontrivial();
}

}
