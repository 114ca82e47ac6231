// C06: every representation answers every read like the model (and therefore like every other one).
#include "../model.hpp"
using namespace mdl;
using mc::choose; using mc::pick;

namespace {

// One answer: a value, an error, or "does not exist in this API".
struct Ans { bool na = false; Err e = Err::none; Val v; };
std::string show(Ans const& a) { return a.na ? "not available" : a.e != Err::none ? name(a.e) : dump(a.v); }
bool eq(Ans const& a, Ans const& b) { return a.e == b.e && (a.e != Err::none || same(a.v, b.v)); }
Ans val(Val v) { Ans a; a.v = std::move(v); return a; }
Ans err(Err e) { Ans a; a.e = e; return a; }
template <class F> Ans get(F&& f) { Ans a; a.e = attempt([&] { a.v = f(); }); return a; }
Ans na() { Ans a; a.na = true; return a; }

Val str(std::string s) { return Val::str(std::move(s)); }
Val num(int64_t i) { return Val::integer(i); }
Val flag(bool b) { return Val::boolean(b); }
Val sval(dart::shim::string_view s) { return str(std::string(s.data(), s.size())); }

std::vector<std::string> const& keys() { static std::vector<std::string> const k {"a", "", "k", "kk", "zz", "\xff", std::string("a\0b", 3), rep('q', 300)}; return k; }
std::vector<size_t> const& idxs() { static std::vector<size_t> const i {0, 1, 2, 3, 1000, (size_t) INT64_MAX, (size_t) -1}; return i; }
Val dflt() { return Val::str("default value that is long enough"); }

// ---- operations without arguments ----
enum { kPlain = 34 };
char const* plain_name[kPlain] = {"is_object", "is_array", "is_aggregate", "is_str", "is_integer", "is_decimal", "is_numeric", "is_boolean", "is_null", "is_primitive", "get_type",
  "size", "empty", "boolean", "integer", "decimal", "numeric", "strv", "str", "boolean_or", "integer_or", "decimal_or", "numeric_or", "strv_or", "str_or",
  "front", "back", "at_front", "at_back", "front_or", "back_or", "keys", "values", "whole"};
template <class R> auto opt_op(R const& r, int op, int) -> decltype(r.boolean_or(true), r.front_or(1), Ans()) {
  auto d = dflt();
  switch (op) {
    case 19: return get([&] { return flag(r.boolean_or(true)); });
    case 20: return get([&] { return num(r.integer_or(-77)); });
    case 21: return get([&] { return Val::decimal(r.decimal_or(-7.5)); });
    case 22: return get([&] { return Val::decimal(r.numeric_or(-7.5)); });
    case 23: return get([&] { return sval(r.strv_or("default")); });
    case 24: return get([&] { return str(r.str_or("default")); });
    case 29: return get([&] { return read(r.front_or(sv(d.s))); });
    default: return get([&] { return read(r.back_or(sv(d.s))); });
  }
}
template <class R> Ans opt_op(R const&, int, long) { return na(); }
template <class R> Ans plain(R const& r, int op) {
  switch (op) {
    case 0: return val(flag(r.is_object())); case 1: return val(flag(r.is_array())); case 2: return val(flag(r.is_aggregate())); case 3: return val(flag(r.is_str()));
    case 4: return val(flag(r.is_integer())); case 5: return val(flag(r.is_decimal())); case 6: return val(flag(r.is_numeric())); case 7: return val(flag(r.is_boolean()));
    case 8: return val(flag(r.is_null())); case 9: return val(flag(r.is_primitive())); case 10: return val(num((int) r.get_type()));
    case 11: return get([&] { return num(r.size()); }); case 12: return get([&] { return flag(r.empty()); });
    case 13: return get([&] { return flag(r.boolean()); }); case 14: return get([&] { return num(r.integer()); });
    case 15: return get([&] { return Val::decimal(r.decimal()); }); case 16: return get([&] { return Val::decimal(r.numeric()); });
    case 17: return get([&] { return sval(r.strv()); });
    case 18: return get([&] { return str(r.str()); });
    case 25: return get([&] { return read(r.front()); }); case 26: return get([&] { return read(r.back()); });
    case 27: return get([&] { return read(r.at_front()); }); case 28: return get([&] { return read(r.at_back()); });
    case 31: return get([&] { Val a = Val::arr(); for (auto& k : r.keys()) a.a.push_back(read(k)); return a; });
    case 32: return get([&] { Val a = Val::arr(); for (auto& k : r.values()) a.a.push_back(read(k)); return a; });
    case 33: return get([&] { return read(r); });
    default: return opt_op(r, op, 0);
  }
}
Ans plain_want(Val const& v, int op) {
  bool obj = v.k == Val::Obj, arr = v.k == Val::Arr, s = v.k == Val::Str, i = v.k == Val::Int, d = v.k == Val::Dec, b = v.k == Val::Bool, n = v.k == Val::Null;
  using T = dart::detail::type; Ans T_ = err(Err::type);
  switch (op) {
    case 0: return val(flag(obj)); case 1: return val(flag(arr)); case 2: return val(flag(obj || arr)); case 3: return val(flag(s)); case 4: return val(flag(i)); case 5: return val(flag(d));
    case 6: return val(flag(i || d)); case 7: return val(flag(b)); case 8: return val(flag(n)); case 9: return val(flag(!obj && !arr && !n));
    case 10: return val(num((int) (obj ? T::object : arr ? T::array : s ? T::string : i ? T::integer : d ? T::decimal : b ? T::boolean : T::null)));
    case 11: return obj || arr || s ? val(num(v.size())) : T_; case 12: return obj || arr || s ? val(flag(v.size() == 0)) : T_;
    case 13: return b ? val(v) : T_; case 14: return i ? val(v) : T_; case 15: return d ? val(v) : T_;
    case 16: return d ? val(v) : i ? val(Val::decimal((double) v.i)) : T_;
    case 17: return s ? val(v) : T_; case 18: return s ? val(str(v.s.c_str())) : T_;
    case 19: return val(flag(b ? v.b : true)); case 20: return val(num(i ? v.i : -77)); case 21: return val(Val::decimal(d ? v.d : -7.5));
    case 22: return val(Val::decimal(d ? v.d : i ? (double) v.i : -7.5)); case 23: return val(s ? v : str("default")); case 24: return val(str(s ? v.s.c_str() : "default"));
    case 25: return !arr ? T_ : val(v.a.empty() ? Val::null() : v.a.front()); case 26: return !arr ? T_ : val(v.a.empty() ? Val::null() : v.a.back());
    case 27: return !arr ? T_ : v.a.empty() ? err(Err::range) : val(v.a.front()); case 28: return !arr ? T_ : v.a.empty() ? err(Err::range) : val(v.a.back());
    case 29: return val(arr && !v.a.empty() ? v.a.front() : dflt()); case 30: return val(arr && !v.a.empty() ? v.a.back() : dflt());
    case 31: { if (!obj) return T_; Val r = Val::arr(); for (auto& e : v.o) r.a.push_back(str(e.first)); return val(r); }
    case 32: { if (!obj && !arr) return T_; Val r = Val::arr(); for (auto& e : v.o) r.a.push_back(e.second); for (auto& e : v.a) r.a.push_back(e); return val(r); }
    default: return val(v);
  }
}

// ---- keyed operations ----
enum { kKey = 16 };
char const* key_name[kKey] = {"[key]", "get(key)", "at(key)", "has_key", "find", "find_key", "[dart key]", "get(dart key)", "at(dart key)", "has_key(dart key)", "get_nested", "get_or(key)", "get_or(dart key)", "[string]", "at(string)", "has_key(string)"};
template <class R> auto opt_key(R const& r, int op, std::string const& k, int) -> decltype(r.get_or(sv(k), 1), Ans()) {
  auto d = dflt(); auto dk = dart::heap::make_string(sv(k));
  if (op == 11) return get([&] { return read(r.get_or(sv(k), sv(d.s))); });
  return get([&] { return read(r.get_or(dk, sv(d.s))); });
}
template <class R> Ans opt_key(R const&, int, std::string const&, long) { return na(); }
template <class R> Ans keyed(R const& r, int op, std::string const& k) {
  auto dk = dart::heap::make_string(sv(k)); dart::heap::string sk(dk);
  switch (op) {
    case 0: return get([&] { return read(r[sv(k)]); }); case 1: return get([&] { return read(r.get(sv(k))); }); case 2: return get([&] { return read(r.at(sv(k))); });
    case 3: return get([&] { return flag(r.has_key(sv(k))); });
    case 4: return get([&] { auto it = r.find(sv(k)); return it == r.end() ? str("<end>") : read(*it); });
    case 5: return get([&] { auto it = r.find_key(sv(k)); return it == r.key_end() ? str("<end>") : read(*it); });
    case 6: return get([&] { return read(r[dk]); }); case 7: return get([&] { return read(r.get(dk)); }); case 8: return get([&] { return read(r.at(dk)); });
    case 9: return get([&] { return flag(r.has_key(dk)); });
    case 10: return get([&] { return read(r.get_nested(sv(k), '\x01')); });
    case 13: return get([&] { return read(r[sk]); }); case 14: return get([&] { return read(r.at(sk)); }); case 15: return get([&] { return flag(r.has_key(sk)); });
    default: return opt_key(r, op, k, 0);
  }
}
Ans keyed_want(Val const& v, int op, std::string const& k) {
  bool obj = v.k == Val::Obj; auto f = obj ? v.o.find(k) : v.o.end(); bool in = obj && f != v.o.end(); Ans T_ = err(Err::type);
  switch (op) {
    case 0: case 1: case 6: case 7: case 13: return !obj ? T_ : val(in ? f->second : Val::null());
    case 2: case 8: case 14: return !obj ? T_ : in ? val(f->second) : err(Err::range);
    case 3: case 9: case 15: return !obj ? T_ : val(flag(in));
    case 4: return !obj ? T_ : val(in ? f->second : str("<end>")); case 5: return !obj ? T_ : val(in ? str(k) : str("<end>"));
    case 10: return k.empty() ? val(v) : val(in ? f->second : Val::null());
    default: return val(in ? f->second : dflt());
  }
}

// ---- indexed operations ----
enum { kIdx = 11 };
char const* idx_name[kIdx] = {"[index]", "get(index)", "at(index)", "[dart index]", "get(dart index)", "at(dart index)", "[number]", "get(number)", "at(number)", "get_or(index)", "get_or(number)"};
template <class R> auto opt_idx(R const& r, int op, size_t i, int) -> decltype(r.get_or(i, 1), Ans()) {
  auto d = dflt(); dart::heap::number n(dart::heap::make_integer((int64_t) i));
  if (op == 9) return get([&] { return read(r.get_or(i, sv(d.s))); });
  return get([&] { return read(r.get_or(n, sv(d.s))); });
}
template <class R> Ans opt_idx(R const&, int, size_t, long) { return na(); }
template <class R> Ans indexed(R const& r, int op, size_t i) {
  auto di = dart::heap::make_integer((int64_t) i); dart::heap::number n(di);
  switch (op) {
    case 0: return get([&] { return read(r[i]); }); case 1: return get([&] { return read(r.get(i)); }); case 2: return get([&] { return read(r.at(i)); });
    case 3: return get([&] { return read(r[di]); }); case 4: return get([&] { return read(r.get(di)); }); case 5: return get([&] { return read(r.at(di)); });
    case 6: return get([&] { return read(r[n]); }); case 7: return get([&] { return read(r.get(n)); }); case 8: return get([&] { return read(r.at(n)); });
    default: return opt_idx(r, op, i, 0);
  }
}
Ans indexed_want(Val const& v, int op, size_t i) {
  bool arr = v.k == Val::Arr, in = arr && i < v.a.size(); Ans T_ = err(Err::type);
  if (op >= 9) return val(in ? v.a[i] : dflt());
  if (op % 3 == 2) return !arr ? T_ : in ? val(v.a[i]) : err(Err::range);
  return !arr ? T_ : val(in ? v.a[i] : Val::null());
}

// ---- dart values that are neither keys nor indices; iteration on non-aggregates ----
enum { kOdd = 20 };
char const* odd_name[kOdd] = {"get(true)", "at(null)", "[decimal]", "get(array)", "has_key(true)", "begin", "end", "rbegin", "key_begin", "rkey_begin", "kvbegin", "key_end", "kvend", "rend", "rkey_end", "rkvbegin", "rkvend", "get_or(true)", "get_or(dart 0)", "get_or(dart -1)"};
template <class R> auto opt_odd(R const& r, int op, int) -> decltype(r.get_or(sv(keys()[0]), 1), Ans()) {
  auto d = dflt(); auto k = op == 17 ? dart::heap::make_boolean(true) : dart::heap::make_integer(op == 18 ? 0 : -1);
  return get([&] { return read(r.get_or(k, sv(d.s))); });
}
template <class R> Ans opt_odd(R const&, int, long) { return na(); }
template <class R> Ans odd(R const& r, int op) {
  auto b = dart::heap::make_boolean(true), n = dart::heap::make_null(), d = dart::heap::make_decimal(0.0), a = dart::heap::make_array(); auto none = [] { return Val::null(); };
  switch (op) {
    case 0: return get([&] { return read(r.get(b)); }); case 1: return get([&] { return read(r.at(n)); }); case 2: return get([&] { return read(r[d]); }); case 3: return get([&] { return read(r.get(a)); });
    case 4: return get([&] { return flag(r.has_key(b)); });
    case 5: return get([&] { r.begin(); return none(); }); case 6: return get([&] { r.end(); return none(); }); case 7: return get([&] { r.rbegin(); return none(); });
    case 8: return get([&] { r.key_begin(); return none(); }); case 9: return get([&] { r.rkey_begin(); return none(); }); case 10: return get([&] { r.kvbegin(); return none(); });
    case 11: return get([&] { r.key_end(); return none(); }); case 12: return get([&] { r.kvend(); return none(); }); case 13: return get([&] { r.rend(); return none(); }); case 14: return get([&] { r.rkey_end(); return none(); });
    case 15: return get([&] { r.rkvbegin(); return none(); }); case 16: return get([&] { r.rkvend(); return none(); });
    default: return opt_odd(r, op, 0);
  }
}
Ans odd_want(Val const& v, int op) {
  if (op < 4) return err(Err::type); if (op == 4) return val(flag(false));
  if (op >= 17) return val(op == 18 && v.k == Val::Arr && !v.a.empty() ? v.a[0] : dflt());
  bool ok = op <= 7 || op == 13 ? v.aggregate() : v.k == Val::Obj;
  return ok ? val(Val::null()) : err(Err::type);
}

// ---- consuming (rvalue) access on owners ----
enum { kMove = 10 };
char const* move_name[kMove] = {"move [key]", "move get(key)", "move at(key)", "move [index]", "move get(index)", "move at(index)", "move front", "move back", "move at_front", "move at_back"};
template <class R> Ans consuming(R const& r, int op, std::string const& k, size_t i) {
  R c = r;
  switch (op) {
    case 0: return get([&] { R x = std::move(c)[sv(k)]; return read(x); }); case 1: return get([&] { R x = std::move(c).get(sv(k)); return read(x); }); case 2: return get([&] { R x = std::move(c).at(sv(k)); return read(x); });
    case 3: return get([&] { R x = std::move(c)[i]; return read(x); }); case 4: return get([&] { R x = std::move(c).get(i); return read(x); }); case 5: return get([&] { R x = std::move(c).at(i); return read(x); });
    case 6: return get([&] { R x = std::move(c).front(); return read(x); }); case 7: return get([&] { R x = std::move(c).back(); return read(x); });
    case 8: return get([&] { R x = std::move(c).at_front(); return read(x); }); default: return get([&] { R x = std::move(c).at_back(); return read(x); });
  }
}
Ans consuming_want(Val const& v, int op, std::string const& k, size_t i) {
  switch (op) { case 0: case 1: return keyed_want(v, 0, k); case 2: return keyed_want(v, 2, k); case 3: case 4: return indexed_want(v, 0, i); case 5: return indexed_want(v, 2, i); case 6: return plain_want(v, 25); case 7: return plain_want(v, 26); case 8: return plain_want(v, 27); default: return plain_want(v, 28); }
}

// ---- values ----
std::vector<Val> const& values() {
  static std::vector<Val> const v = [] {
    std::vector<Val> r = scalars();
    for (auto& x : layout_values()) if (x.aggregate()) r.push_back(x);
    r.push_back(Val::obj({{"a", Val::integer(1)}, {"", Val::null()}, {"k", Val::arr()}, {"kk", Val::obj({{"a", Val::str("nested")}})}, {"\xff", Val::decimal(2.5)}, {std::string("a\0b", 3), Val::boolean(true)}, {rep('q', 300), Val::str("long key")}}));
    r.push_back(Val::arr({Val::null(), Val::str(rep('w', 40)), Val::obj({{"a", Val::null()}})}));
    r.push_back(Val::arr({Val::null()})); r.push_back(Val::obj({{"k", Val::null()}}));
    r.push_back(Val::str(rep('L', 65535))); r.push_back(Val::str(rep('L', 65536)));
    std::vector<Val> many; for (int i = 0; i < 40; ++i) many.push_back(Val::integer(i * 1000)); r.push_back(Val::arr(many));
    Val wide = Val::obj(); for (int i = 0; i < 40; ++i) wide.o["f" + std::to_string(i)] = i % 3 ? Val::integer(i) : Val::str("s" + std::to_string(i)); r.push_back(wide);
    return r;
  }();
  return v;
}

// ---- representations ----
char const* rep_name[] = {"heap", "dynamic packet", "finalized packet element", "buffer element", "heap view", "buffer view", "dynamic packet view", "finalized packet view", "unsafe heap", "unsafe buffer element", "root buffer", "root finalized packet", "re-imported buffer"};
enum { kReps = 13 };
template <class F> void with_rep(int rep, Val const& v, F&& f) {
  switch (rep) {
    case 0: f(build<dart::heap>(v), std::true_type {}); break;
    case 1: f(build<dart::packet>(v), std::true_type {}); break;
    case 2: { dart::packet p = build<dart::packet>(Val::obj({{"v", v}})); p.finalize(); dart::packet e = p["v"]; f(e, std::true_type {}); break; }
    case 3: { auto b = build<dart::heap>(Val::obj({{"v", v}})).finalize(); auto e = b["v"]; f(e, std::true_type {}); break; }
    case 4: { auto h = build<dart::heap>(v); dart::heap::view w = h; f(w, std::false_type {}); break; }
    case 5: { auto b = build<dart::heap>(Val::obj({{"v", v}})).finalize(); auto e = b["v"]; dart::buffer::view w = e; f(w, std::false_type {}); break; }
    case 6: { auto h = build<dart::packet>(v); dart::packet::view w = h; f(w, std::false_type {}); break; }
    case 7: { dart::packet p = build<dart::packet>(Val::obj({{"v", v}})); p.finalize(); dart::packet e = p["v"]; dart::packet::view w = e; f(w, std::false_type {}); break; }
    case 8: f(build<dart::unsafe_heap>(v), std::true_type {}); break;
    case 9: { auto b = build<dart::unsafe_heap>(Val::obj({{"v", v}})).finalize(); auto e = b["v"]; f(e, std::true_type {}); break; }
    case 10: { if (v.k != Val::Obj) mc::prune(); f(build<dart::heap>(v).finalize(), std::true_type {}); break; }
    case 11: { if (v.k != Val::Obj) mc::prune(); auto p = build<dart::packet>(v); p.finalize(); f(p, std::true_type {}); break; }
    default: { auto b = build<dart::heap>(Val::obj({{"v", v}})).finalize(); dart::buffer c(b.get_bytes()); auto e = c["v"]; f(e, std::true_type {}); break; }
  }
}
template <class R> Ans consuming_if(R const& r, int op, std::string const& k, size_t i, std::true_type) { return consuming(r, op, k, i); }
template <class R> Ans consuming_if(R const&, int, std::string const&, size_t, std::false_type) { mc::prune(); }

void compare(Ans const& got, Ans const& want, Val const& v, char const* op, int rep, std::string const& arg) {
  if (got.na) { mc::prune(); }
  mc::step(); mc::state(mc::mix(hash(v), mc::hash_str(std::string(op) + arg)));
  if (!eq(got, want)) mc::fail(std::string(op) + " on " + rep_name[rep], std::string(op) + " " + arg + " of " + dump(v) + " as " + rep_name[rep] + " gives " + show(got) + ", expected " + show(want));
  mc::nontrivial();
}

MC_SPACE(ops, "reads", "every value (all scalars and boundary strings, aggregates, 40-element aggregates) x 13 representations x 34 argument-free reads") {
  Val v = pick(values()); int rep = choose(kReps), op = choose(kPlain); MC_NOTE(std::string(plain_name[op]) + " of " + dump(v) + " as " + rep_name[rep]);
  with_rep(rep, v, [&] (auto const& r, auto) { compare(plain(r, op), plain_want(v, op), v, plain_name[op], rep, ""); expect(r, v, "value after a read"); });
}
MC_SPACE(keyed_s, "keyed-reads", "the same values and representations x 16 keyed reads x 8 keys") {
  Val v = pick(values()); int rep = choose(kReps), op = choose(kKey); auto k = pick(keys()); MC_NOTE(std::string(key_name[op]) + " " + mc::show(k) + " of " + dump(v) + " as " + rep_name[rep]);
  with_rep(rep, v, [&] (auto const& r, auto) { compare(keyed(r, op, k), keyed_want(v, op, k), v, key_name[op], rep, mc::show(k)); });
}
MC_SPACE(indexed_s, "indexed-reads", "the same values and representations x 11 indexed reads x 7 indices") {
  Val v = pick(values()); int rep = choose(kReps), op = choose(kIdx); auto i = pick(idxs()); MC_NOTE(std::string(idx_name[op]) + " " + std::to_string(i) + " of " + dump(v) + " as " + rep_name[rep]);
  with_rep(rep, v, [&] (auto const& r, auto) { compare(indexed(r, op, i), indexed_want(v, op, i), v, idx_name[op], rep, std::to_string(i)); });
}
MC_SPACE(odd_s, "odd-reads", "the same values and representations x 20 reads that fit no or few types") {
  Val v = pick(values()); int rep = choose(kReps), op = choose(kOdd); MC_NOTE(std::string(odd_name[op]) + " of " + dump(v) + " as " + rep_name[rep]);
  with_rep(rep, v, [&] (auto const& r, auto) { compare(odd(r, op), odd_want(v, op), v, odd_name[op], rep, ""); });
}
MC_SPACE(move_s, "consuming-reads", "the same values on owners x 10 rvalue reads x 8 keys or 7 indices") {
  Val v = pick(values()); int rep = choose(kReps), op = choose(kMove); std::string k; size_t i = 0; if (op < 3) k = pick(keys()); else if (op < 6) i = pick(idxs());
  MC_NOTE(std::string(move_name[op]) + " of " + dump(v) + " as " + rep_name[rep]);
  with_rep(rep, v, [&] (auto const& r, auto owner) { compare(consuming_if(r, op, k, i, owner), consuming_want(v, op, k, i), v, move_name[op], rep, mc::show(k) + std::to_string(i)); });
}

}
