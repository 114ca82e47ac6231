// C08: merging and projection.
#include "../model.hpp"
using namespace mdl;
using mc::choose; using mc::pick;

namespace {

std::vector<std::string> const& keys() { static std::vector<std::string> const k {"a", "", "b", "ab", "\xff", rep('q', 255), rep('q', 256), std::string("a\0", 2), "abc", "abcdefg"}; return k; }
enum { kForms = 5 };
char const* form_name[] = {"heap", "buffer", "dynamic packet", "finalized packet", "heap via unsafe counter"};

void check_finalized(dart::buffer const& b, Val const& want, std::string const& what) {
  expect(b, want, what);
  auto bytes = b.get_bytes(); Bytes ref = encode(want);
  if ((size_t) bytes.size() != ref.size() || memcmp(bytes.data(), ref.data(), ref.size())) mc::fail("not canonical: " + what, what + " has bytes\n  " + hex((unsigned char const*) bytes.data(), bytes.size()) + "\nexpected\n  " + hex(ref.data(), ref.size()));
  MC_CHECK(dart::is_valid(bytes), "not valid: " + what, what + " does not validate");
  for (auto& e : want.o) { MC_CHECK(b.has_key(sv(e.first)), "lookup after " + what, "key " + mc::show(e.first) + " is not found"); auto x = b[sv(e.first)]; expect(x, e.second, "looked up value after " + what); }
}
void check_any(dart::packet const& p, Val const& want, std::string const& what, bool fin) {
  MC_CHECK(p.is_finalized() == fin, "form of " + what, what + " changes the form of the value");
  if (fin) check_finalized(dart::buffer(p), want, what); else { expect(p, want, what); for (auto& e : want.o) { auto x = p[sv(e.first)]; expect(x, e.second, "looked up value after " + what); } }
}

// A value of one form, with both operations.
struct Any {
  int form; dart::heap h; dart::buffer b; dart::packet p; dart::unsafe_heap u;
  Any(int form, Val const& v) : form(form) {
    switch (form) { case 0: h = build<dart::heap>(v); break; case 1: b = build<dart::heap>(v).finalize(); break; case 2: p = build<dart::packet>(v); break; case 3: p = build<dart::packet>(v); p.finalize(); break; default: u = build<dart::unsafe_heap>(v); }
  }
  bool fin() const { return form == 1 || form == 3; }
  void check(Val const& want, std::string const& what) const { std::string w = what + " (" + form_name[form] + ")"; if (form == 0) expect(h, want, w); else if (form == 1) check_finalized(b, want, w); else if (form == 4) expect(u, want, w); else check_any(p, want, w, form == 3); }
  // how: 0 heap span, 1 packet span (mixed finalized), 2 buffer span
  template <class S> void apply(S&& f) { if (form == 0) h = f(h); else if (form == 1) b = f(b); else if (form == 4) u = f(u); else p = f(p); }
  void inject(std::vector<std::pair<std::string, Val>> const& pairs, int how) {
    std::vector<dart::heap> hs; std::vector<dart::packet> ps; std::vector<dart::buffer> bs; std::vector<dart::unsafe_heap> us;
    for (auto& x : pairs) {
      auto k = dart::heap::make_string(sv(x.first)); auto v = build<dart::heap>(x.second); hs.push_back(k); hs.push_back(v);
      auto fin = dart::heap::make_object("k", k, "v", v).finalize(); bs.push_back(fin["k"]); bs.push_back(fin["v"]);
      ps.push_back(k); ps.push_back(fin["v"]); us.push_back(dart::unsafe_heap::make_string(sv(x.first))); us.push_back(build<dart::unsafe_heap>(x.second));
    }
    auto hsp = gsl::span<dart::heap const>(hs.data(), hs.size()); auto psp = gsl::span<dart::packet const>(ps.data(), ps.size()); auto bsp = gsl::span<dart::buffer const>(bs.data(), bs.size());
    switch (form) {
      case 0: h = how == 0 ? h.inject(hsp) : how == 1 ? h.inject(psp) : h.inject(bsp); break;
      case 1: b = how == 0 ? b.inject(hsp) : how == 1 ? b.inject(psp) : b.inject(bsp); break;
      case 4: u = u.inject(gsl::span<dart::unsafe_heap const>(us.data(), us.size())); break;
      default: p = how == 0 ? p.inject(hsp) : how == 1 ? p.inject(psp) : p.inject(bsp); break;
    }
  }
  void project(std::vector<std::string> const& ks, int how) {
    std::vector<dart::shim::string_view> views; for (auto& k : ks) views.push_back(sv(k));
    auto ssp = gsl::span<std::string const>(ks.data(), ks.size()); auto vsp = gsl::span<dart::shim::string_view const>(views.data(), views.size());
    apply([&] (auto& x) { return how == 0 ? x.project(ssp) : x.project(vsp); });
  }
};
Val projected(Val const& v, std::vector<std::string> const& ks) { Val r = Val::obj(); for (auto& k : ks) { auto f = v.o.find(k); if (f != v.o.end()) r.o[k] = f->second; } return r; }
Val merged(Val v, std::vector<std::pair<std::string, Val>> const& pairs) { for (auto& p : pairs) v.o[p.first] = p.second; return v; }
bool has_dup(std::vector<std::pair<std::string, Val>> const& p) { for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < i; ++j) if (p[i].first == p[j].first) return true; return false; }
Val vn(int i) { auto& l = layout_values(); return l[(unsigned) i % l.size()]; }

void do_inject(Any& x, Val const& base, std::vector<std::pair<std::string, Val>> const& pairs, int how) {
  Any before = x;
  if (x.fin() && has_dup(pairs)) { Err e = attempt([&] { x.inject(pairs, how); }); expect_err(e, Err::invalid, "injecting duplicate keys into a finalized object"); x.check(base, "object after a rejected inject"); mc::prune(); }
  x.inject(pairs, how); mc::step();
  Val want = merged(base, pairs); x.check(want, "inject"); before.check(base, "source of inject"); mc::state(hash(want));
}
void do_project(Any& x, Val const& base, std::vector<std::string> const& ks, int how) {
  Any before = x; x.project(ks, how); mc::step(); Val want = projected(base, ks); x.check(want, "project"); before.check(base, "source of project"); mc::state(hash(want));
}

MC_SPACE_X(merge, "merge", "every subset of 6 (thorough 7) keys as the base x every list of up to 2 (thorough 3) pairs over the same keys (duplicates included) x 5 forms x 3 pair sources", 2, true) {
  int K = mc::thorough() ? 7 : 6, form = choose(kForms), mask = choose(1 << K), n = choose(mc::thorough() ? 4 : 3); Val base = Val::obj(); std::vector<std::pair<std::string, Val>> pairs;
  for (int i = 0; i < K; ++i) if (mask >> i & 1) base.o[keys()[i]] = vn(i * 5 + 1);
  for (int i = 0; i < n; ++i) { int k = choose(K); pairs.emplace_back(keys()[k], vn(k * 3 + i * 4)); }
  int how = form == 4 ? 0 : choose(3); std::string l; for (auto& p : pairs) l += mc::show(p.first) + "=" + dump(p.second) + " "; MC_NOTE("inject " + l + "into " + dump(base) + " as " + form_name[form] + ", source " + std::to_string(how));
  Any x(form, base); do_inject(x, base, pairs, how); mc::nontrivial();
}
MC_SPACE_X(layout, "merge-layout", "every pair of layout values (17 x 17) as base fields x every layout value as the injected pair x 5 relations of its key to the base keys, finalized", 2, true) {
  auto& l = layout_values(); Val base = Val::obj(); int i = choose(17), j = choose(18), k = choose(17), rel = choose(5), klen = choose(mc::thorough() ? 9 : 3);
  std::string pre = rep('p', klen); base.o[pre + "b"] = l[i]; if (j < 17) base.o[pre + "d"] = l[j];
  static char const* key[] = {"a", "b", "c", "d", "e"}; MC_NOTE("inject " + pre + key[rel] + "=" + dump(l[k]) + " into " + dump(base));
  Any x(1, base); do_inject(x, base, {{pre + key[rel], l[k]}}, 0);
  do_inject(x, merged(base, {{pre + key[rel], l[k]}}), {{"z", Val::boolean(true)}}, 0); mc::nontrivial();
}
MC_SPACE_X(proj, "project", "every subset of 6 (thorough 7) keys x every list of up to 3 (thorough 4) of 8 keys (absent and duplicate ones included) x 5 forms x 2 list types", 2, true) {
  int K = mc::thorough() ? 7 : 6, form = choose(kForms), mask = choose(1 << K), n = choose(mc::thorough() ? 5 : 4); Val base = Val::obj(); std::vector<std::string> ks;
  for (int i = 0; i < K; ++i) if (mask >> i & 1) base.o[keys()[i]] = vn(i * 5 + mask);
  for (int i = 0; i < n; ++i) ks.push_back(keys()[choose(K + 1)]);
  int how = n ? choose(2) : 0; std::string l; for (auto& p : ks) l += mc::show(p) + " "; MC_NOTE("project " + l + "of " + dump(base) + " as " + form_name[form]);
  Any x(form, base); do_project(x, base, ks, how); mc::nontrivial();
}
MC_SPACE(proj_long, "project-long", "lists of 0..60 (thorough 300) keys, all present / all absent / interleaved / repeated, on objects of 0..12 fields with every layout value, 5 forms") {
  int form = choose(kForms), nf = choose(13), n = choose(mc::thorough() ? 301 : 61), kind = choose(4); Val base = Val::obj(); for (int i = 0; i < nf; ++i) base.o[rep('k', i % 3) + std::to_string(i)] = vn(i + nf);
  std::vector<std::string> ks; for (int i = 0; i < n; ++i) switch (kind) { case 0: ks.push_back(rep('k', i % 3) + std::to_string(i)); break; case 1: ks.push_back("no" + std::to_string(i)); break; case 2: ks.push_back(i % 2 ? rep('k', (i / 2) % 3) + std::to_string(i / 2) : "m" + std::to_string(i)); break; default: ks.push_back(nf ? base.o.begin()->first : "x"); }
  MC_NOTE("project " + std::to_string(n) + " keys kind " + std::to_string(kind) + " of " + std::to_string(nf) + " fields as " + form_name[form]);
  Any x(form, base); do_project(x, base, ks, 0); mc::nontrivial();
}
MC_SPACE(sizes, "merge-sizes", "merging every pair of sizes 0..20 (thorough 60) with disjoint, equal and interleaved keys and rotating layout values, 5 forms") {
  int M = mc::thorough() ? 61 : 21, form = choose(kForms), n = choose(M), m = choose(M), kind = choose(3), rot = choose(mc::thorough() ? 4 : 2); Val base = Val::obj(); std::vector<std::pair<std::string, Val>> pairs;
  for (int i = 0; i < n; ++i) base.o["k" + std::to_string(i * 2)] = vn(i + rot * 5);
  for (int i = 0; i < m; ++i) pairs.emplace_back((kind == 0 ? "l" : "k") + std::to_string(kind == 1 ? i * 2 : i * 2 + (i & 1)), vn(i * 3 + 1 + rot));
  MC_NOTE("merge " + std::to_string(m) + " into " + std::to_string(n) + " kind " + std::to_string(kind) + " as " + form_name[form]);
  Any x(form, base); do_inject(x, base, pairs, form == 1 ? 2 : 0); mc::nontrivial();
}
MC_SPACE_X(chains, "chains", "every chain of 2 (thorough 3) injections and projections over 3 keys and 3 values, 5 forms", 2, true) {
  int form = choose(kForms); Val m = Val::obj({{"a", vn(8)}, {"", vn(3)}}); Any x(form, m);
  for (int d = 0; d < (mc::thorough() ? 3 : 2); ++d) {
    int op = choose(2);
    if (op == 0) { int n = 1 + choose(2); std::vector<std::pair<std::string, Val>> ps; for (int i = 0; i < n; ++i) ps.emplace_back(keys()[choose(3)], vn(choose(3) * 4 + 7)); std::string l; for (auto& p : ps) l += mc::show(p.first) + " "; MC_NOTE("inject " + l); do_inject(x, m, ps, 0); m = merged(m, ps); }
    else { int mask = choose(8); std::vector<std::string> ks; for (int i = 0; i < 3; ++i) if (mask >> i & 1) ks.push_back(keys()[2 - i]); MC_NOTE("project mask " + std::to_string(mask)); do_project(x, m, ks, choose(2)); m = projected(m, ks); }
  }
  mc::nontrivial();
}
// The variadic and initializer list overloads, fixed shapes.
MC_SPACE(shapes, "shapes", "variadic inject of 0..3 native pairs and initializer-list project of 0..3 keys, 5 forms x 4 bases") {
  int form = choose(kForms), nb = choose(4), op = choose(8); Val base = Val::obj(); for (int i = 0; i < nb; ++i) base.o[keys()[i]] = vn(i + 6); Any x(form, base); Val want = base; MC_NOTE(dump(base) + " as " + form_name[form] + " op " + std::to_string(op)); mc::step();
  switch (op) {
    case 0: x.apply([] (auto& v) { return v.inject("a", 1); }); want.o["a"] = Val::integer(1); break;
    case 1: x.apply([] (auto& v) { return v.inject("b", "text", "a", 0.5); }); want.o["a"] = Val::decimal(0.5); want.o["b"] = Val::str("text"); break;
    case 2: x.apply([] (auto& v) { return v.inject("zz", nullptr, "", true, "b", std::string("owned")); }); want.o["zz"] = Val::null(); want.o[""] = Val::boolean(true); want.o["b"] = Val::str("owned"); break;
    case 3: x.apply([] (auto& v) { return v.inject("self", v); }); want.o["self"] = base; break;
    case 4: x.apply([] (auto& v) { return v.project(std::initializer_list<dart::shim::string_view> {}); }); want = Val::obj(); break;
    case 5: x.apply([] (auto& v) { return v.project({"a"}); }); want = projected(base, {"a"}); break;
    case 6: x.apply([] (auto& v) { return v.project({"b", "", "nope"}); }); want = projected(base, {"b", ""}); break;
    default: x.apply([] (auto& v) { return v.project({"a", "a", "", "a"}); }); want = projected(base, {"a", ""}); break;
  }
  x.check(want, "result"); mc::nontrivial();
}
// Rejected uses leave everything unchanged.
MC_SPACE(bad, "misuse", "non-string keys, odd lists, oversized keys and non-object receivers, 4 forms") {
  int form = choose(4), op = choose(9); Val base = Val::obj({{"a", vn(9)}}); Any x(form, base); MC_NOTE(std::string(form_name[form]) + " misuse " + std::to_string(op)); mc::step();
  std::vector<dart::heap> l; Err e = Err::none;
  auto span = [&] { return gsl::span<dart::heap const>(l.data(), l.size()); };
  auto inject = [&] { if (form == 0) x.h.inject(span()); else if (form == 1) x.b.inject(span()); else x.p.inject(span()); };
  auto elem = [&] (Val const& v, auto&& f) { // receiver that is not an object
    if (form == 0) { auto h = build<dart::heap>(v); f(h); } else if (form == 1) { auto o = build<dart::heap>(Val::obj({{"v", v}})).finalize(); auto b = o["v"]; f(b); }
    else { auto p = build<dart::packet>(Val::obj({{"v", v}})); if (form == 3) p.finalize(); dart::packet q = p["v"]; f(q); } };
  switch (op) {
    case 0: l = {dart::heap::make_string("k")}; e = attempt(inject); expect_err(e, Err::invalid, "odd list"); break;
    case 1: l = {dart::heap::make_string("k"), dart::heap::make_null(), dart::heap::make_string("l")}; e = attempt(inject); expect_err(e, Err::invalid, "odd list"); break;
    case 2: l = {dart::heap::make_integer(0), dart::heap::make_null()}; e = attempt(inject); MC_CHECK(e == Err::type || e == Err::invalid, "integer key", std::string("integer key gave ") + name(e)); break;
    case 3: l = {dart::heap::make_null(), dart::heap::make_null()}; e = attempt(inject); MC_CHECK(e == Err::type || e == Err::invalid, "null key", std::string("null key gave ") + name(e)); break;
    case 4: l = {dart::heap::make_string(rep('k', 65536)), dart::heap::make_null()}; e = attempt(inject); expect_err(e, Err::invalid, "oversized key"); break;
    case 5: l = {dart::heap::make_string("ok"), dart::heap::make_null(), dart::heap::make_boolean(true), dart::heap::make_null()}; e = attempt(inject); MC_CHECK(e == Err::type || e == Err::invalid, "boolean key", std::string("boolean key gave ") + name(e)); break;
    case 6: for (auto v : {Val::arr({Val::integer(1)}), Val::str("s"), Val::null(), Val::integer(3)}) elem(v, [&] (auto& r) { expect_err(attempt([&] { r.inject("a", 1); }), Err::type, "inject into a non-object"); expect(r, v, "receiver"); }); break;
    case 7: for (auto v : {Val::arr({Val::integer(1)}), Val::str("s"), Val::null(), Val::decimal(3)}) elem(v, [&] (auto& r) { expect_err(attempt([&] { r.project({"a"}); }), Err::type, "project of a non-object"); expect(r, v, "receiver"); }); break;
    case 8: l = {dart::heap::make_string(rep('k', 65535)), dart::heap::make_integer(1)}; { Val w = base; w.o[rep('k', 65535)] = Val::integer(1); if (form == 0) x.h = x.h.inject(span()); else if (form == 1) x.b = x.b.inject(span()); else x.p = x.p.inject(span()); x.check(w, "longest key"); } return;
  }
  x.check(base, "object after a rejected operation"); mc::nontrivial();
}

}
