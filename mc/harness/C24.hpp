// C24: bytes out, bytes in. One translation unit per reference counter.
#include "tracked.hpp"
#include "../model.hpp"
using namespace mdl;
using mc::choose; using mc::pick;
namespace {
using Raw = std::vector<unsigned char>;
using UFn = std::unique_ptr<gsl::byte const[], void (*)(gsl::byte const*)>;
// A place in memory at a chosen offset from a 64-byte boundary; nothing beyond its end is accessible.
struct Place {
  gsl::byte* base; gsl::byte* p; size_t n;
  Place(void const* src, size_t len, size_t off) : n(len) { void* m = nullptr; if (posix_memalign(&m, 64, len + off ? len + off : 1)) abort(); base = static_cast<gsl::byte*>(m); p = base + off; if (len) memcpy(p, src, len); }
  ~Place() { kill(); } void kill() { if (base) { memset(p, 0xdb, n); free(base); base = nullptr; } }
  Place(Place const&) = delete;
};
int& freed() { static thread_local int n; return n; }
gsl::byte*& freed_base() { static thread_local gsl::byte* b; return b; }
void give_back(gsl::byte const* p) { ++freed(); memset(const_cast<gsl::byte*>(p), 0xdb, 1); free(freed_base()); freed_base() = nullptr; }
struct Deleter { int* n; template <class P> void operator ()(P p) const { ++*n; if (p) give_back(p); } };

template <template <class> class R, class P> P as(dart::basic_buffer<R> b) { return P(std::move(b)); }
template <template <class> class R> dart::shareable_ptr<R<gsl::byte const>> fresh() { return dart::shareable_ptr<R<gsl::byte const>>(nullptr); }

enum { kExports = 5 };
char const* ex_name(int e) { static char const* n[] = {"get_bytes()", "dup_bytes()", "dup_bytes(len)", "share_bytes()", "get_bytes() of a view"}; return n[e]; }
// The bytes as exported. Shared exports hand out the enclosing buffer.
template <template <class> class R, class P> Raw exported(P const& p, int how, Raw const& root, Raw const& self) {
  auto raw = [] (gsl::byte const* d, size_t n) { auto* u = reinterpret_cast<unsigned char const*>(d); return Raw(u, u + n); }; mc::step();
  switch (how) {
    case 0: { auto s = p.get_bytes(); return raw(s.data(), s.size()); }
    case 1: { auto d = p.dup_bytes(); MC_CHECK((uintptr_t) d.get() % 8 == 0, "duplicate misaligned", "dup_bytes() returns a misaligned pointer"); MC_CHECK(d.get() != p.get_bytes().data(), "duplicate aliases", "dup_bytes() returns the original"); return raw(d.get(), self.size()); }
    case 2: { size_t n = 12345; auto d = p.dup_bytes(n); MC_CHECK(n == self.size(), "length", "dup_bytes reports " + std::to_string(n) + " bytes instead of " + std::to_string(self.size())); return raw(d.get(), n); }
    case 3: { auto s = fresh<R>(); size_t n = p.share_bytes(s.raw()); MC_CHECK(n == root.size(), "length", "share_bytes reports " + std::to_string(n) + " bytes instead of " + std::to_string(root.size())); MC_CHECK(s.use_count() >= 2, "not shared", "share_bytes gives a counter of " + std::to_string(s.use_count())); return raw(s.get(), n); }
    default: { typename P::view v = p; auto s = v.get_bytes(); return raw(s.data(), s.size()); }
  }
}
enum { kImports = 11 };
char const* im_name(int i) { static char const* n[] = {"span", "span of misaligned memory", "span with more bytes behind", "adopted byte const[] with a function", "adopted byte const[] with a deleter object", "adopted byte const", "adopted byte", "shared counter", "packet from span", "packet adopting", "packet from shared counter"}; return n[i]; }
// Imports the bytes and checks the value while the handle lives, and the memory after it has gone.
template <template <class> class R, class F> void imported(Raw const& bytes, int how, size_t off, Val const& v, F&& use) {
  using B = dart::basic_buffer<R>; using P = dart::basic_packet<R>; freed() = 0; mc::step(); std::string what = std::string("value imported by ") + im_name(how);
  auto judge = [&] (auto const& x, void const* at) {
    expect(x, v, what); auto s = x.get_bytes(); Raw want = encode(v); MC_CHECK((size_t) s.size() == want.size() && !memcmp(s.data(), want.data(), want.size()), "bytes after import", what + " has other bytes"); MC_CHECK((uintptr_t) s.data() % 8 == 0, "alignment", what + " is misaligned");
    if (at) MC_CHECK(s.data() == at, "not adopted", what + " is a copy"); MC_CHECK(x.is_finalized() && x.is_object(), "form", what + " is not a finalized object"); use(x); };
  if (how <= 2 || how == 8) {
    Raw b = bytes; if (how == 2) b.insert(b.end(), 24, 0xff); Place m(b.data(), b.size(), how == 1 ? 1 + off % 7 : off / 8 * 8 % 64); gsl::span<gsl::byte const> s(m.p, (std::ptrdiff_t) m.n);
    if (how == 8) { P x(s); m.kill(); judge(x, nullptr); auto y = x; x = P::make_null(); judge(y, nullptr); } else { B x(s); m.kill(); judge(x, nullptr); auto y = x; x = B::make_null(); judge(y, nullptr); }
    return;
  }
  int dels = 0; { Place m(bytes.data(), bytes.size(), off / 8 * 8); auto* at = m.p; freed_base() = m.base; m.base = nullptr;
    auto life = [&] (auto x) { judge(x, at); auto y = x; MC_CHECK(!freed(), "freed early", what + " is released early"); auto z = std::move(x); judge(y, at); y = decltype(y)::make_null(); MC_CHECK(!freed(), "freed early", what + " is released early"); judge(z, at); };
    switch (how) {
      case 3: { std::unique_ptr<gsl::byte const[], void (*)(gsl::byte const*)> u(at, give_back); life(B(std::move(u))); MC_CHECK(!u, "still owned", "adoption leaves the source owning"); break; }
      case 4: { std::unique_ptr<gsl::byte const[], Deleter> u(at, Deleter {&dels}); life(B(std::move(u))); MC_CHECK(dels == 1, "deleter", "the deleter ran " + std::to_string(dels) + " times"); break; }
      case 5: { std::unique_ptr<gsl::byte const, Deleter> u(at, Deleter {&dels}); life(B(std::move(u))); MC_CHECK(dels == 1, "deleter", "the deleter ran " + std::to_string(dels) + " times"); break; }
      case 6: { std::unique_ptr<gsl::byte, Deleter> u(at, Deleter {&dels}); life(B(std::move(u))); MC_CHECK(dels == 1, "deleter", "the deleter ran " + std::to_string(dels) + " times"); break; }
      case 7: { dart::shareable_ptr<R<gsl::byte const>> s((gsl::byte const*) at, &give_back); auto keep = s; life(B(std::move(s))); MC_CHECK(!freed(), "freed early", "the shared counter is released early"); keep = nullptr; break; }
      case 9: { std::unique_ptr<gsl::byte const[], Deleter> u(at, Deleter {&dels}); life(P(std::move(u))); MC_CHECK(dels == 1, "deleter", "the deleter ran " + std::to_string(dels) + " times"); break; }
      default: { dart::shareable_ptr<R<gsl::byte const>> s((gsl::byte const*) at, &give_back); life(P(s)); MC_CHECK(!freed(), "freed early", "the shared counter is released early"); break; }
    } }
  MC_CHECK(freed() == 1, "releases", "the adopted memory was released " + std::to_string(freed()) + " times by " + im_name(how));
}
// The value to export: root or nested, as buffer or packet or typed object.
template <template <class> class R, class F> void holders(int h, Val const& v, F&& f) {
  using B = dart::basic_buffer<R>; using P = dart::basic_packet<R>; using H = dart::basic_heap<R>; Raw self = encode(v);
  auto wrap = [&] (int k) { return k == 0 ? v : k == 1 ? Val::obj({{"", Val::str("x")}, {"w", v}, {"zz", Val::integer(1)}}) : Val::obj({{"a", Val::arr({Val::null(), v, Val::boolean(true)})}}); };
  auto dig = [] (auto b, int k) -> decltype(b) { if (k == 0) return b; if (k == 1) return b["w"]; return b["a"][1]; };
  int k = h % 3; Val w = wrap(k); Raw root = encode(w); B b = build<H>(w).finalize();
  switch (h / 3) { case 0: f(dig(b, k), root, self); break; case 1: f(dig(P(b), k), root, self); break; case 2: { auto p = build<P>(w); p.finalize(); f(dig(p, k), root, self); break; } default: f(typename B::object(dig(b, k)), root, self); }
}
enum { kHolders = 12 };
template <template <class> class R> void trip(int h, int e, int i, size_t off, Val const& v) {
  holders<R>(h, v, [&] (auto p, Raw const& root, Raw const& self) {
    Raw got = exported<R>(p, e, root, self), want = e == 3 ? root : self; MC_CHECK(got == want, std::string("exported bytes, ") + ex_name(e), std::string(ex_name(e)) + " of " + dump(v) + " gives " + hex(got.data(), got.size()) + " instead of " + hex(want.data(), want.size()));
    p = decltype(p)(dart::basic_buffer<R>(build<dart::basic_heap<R>>(Val::obj()).finalize())); Val m = v; if (e == 3 && h % 3) m = h % 3 == 1 ? Val::obj({{"", Val::str("x")}, {"w", v}, {"zz", Val::integer(1)}}) : Val::obj({{"a", Val::arr({Val::null(), v, Val::boolean(true)})}});
    imported<R>(got, i, off, m, [] (auto const&) {}); });
  mc::nontrivial(); mc::state(mc::mix(hash(v), h * 256 + e * 16 + i));
}
Val value_of(int n) { // objects over all layouts
  auto const& ly = layout_values(); auto const& sc = scalars(); if (n < (int) ly.size()) return ly[n].k == Val::Obj ? ly[n] : Val::obj({{"k", ly[n]}}); n -= ly.size(); if (n < (int) sc.size()) return Val::obj({{"", sc[n]}, {"kk", Val::arr({sc[n], Val::obj({{"d", sc[n]}})})}}); n -= sc.size();
  if (n == 0) return Val::obj(); Val r = Val::obj(); for (int i = 0; i < n * n * n; ++i) r.o["f" + std::to_string(i)] = ly[(i * 5 + n) % ly.size()]; return r; }
int values() { return (int) (layout_values().size() + scalars().size() + 5); }
template <template <class> class R> void shared_lives() {
  using B = dart::basic_buffer<R>; using P = dart::basic_packet<R>; using H = dart::basic_heap<R>; Val v = Val::obj({{"s", Val::str(rep('q', 40))}, {"o", Val::obj({{"x", Val::integer(70000)}})}}); Raw root = encode(v);
  std::vector<B> bs; std::vector<dart::shareable_ptr<R<gsl::byte const>>> ss; bs.push_back(build<H>(v).finalize()); std::vector<Val> bv {v}; int n = mc::thorough() ? 5 : 4;
  for (int i = 0; i < n; ++i) {
    int c = choose(6); mc::step(); MC_NOTE("op " + std::to_string(c));
    switch (c) {
      case 0: { if (bs.empty()) mc::prune(); int j = choose((int) bs.size()); ss.push_back(fresh<R>()); size_t len = bs[j].share_bytes(ss.back().raw()); MC_CHECK(len == root.size(), "length", "share_bytes reports " + std::to_string(len)); break; }
      case 1: { if (bs.empty() || ss.empty()) mc::prune(); int j = choose((int) ss.size()), k = choose((int) bs.size()); P(bs[k]).share_bytes(ss[j].raw()); break; }   // over an export which is in use
      case 2: { if (ss.empty()) mc::prune(); int j = choose((int) ss.size()); bs.push_back(B(ss[j])); bv.push_back(v); break; }
      case 3: { if (bs.empty()) mc::prune(); int j = choose((int) bs.size()); if (bv[j].o.count("o")) { bs.push_back(bs[j]["o"]); bv.push_back(v.o["o"]); } else mc::prune(); break; }
      case 4: { if (bs.empty()) mc::prune(); int j = choose((int) bs.size()); bs.erase(bs.begin() + j); bv.erase(bv.begin() + j); break; }
      default: { if (ss.empty()) mc::prune(); int j = choose((int) ss.size()); ss.erase(ss.begin() + j); break; }
    }
    for (size_t j = 0; j < bs.size(); ++j) expect(bs[j], bv[j], "handle among shared exports");
    for (auto& s : ss) MC_CHECK(!memcmp(s.get(), root.data(), root.size()), "shared bytes", "a shared export no longer holds the bytes");
    mc::state(mc::mix(bs.size() * 16 + ss.size(), i)); if (!ss.empty()) mc::nontrivial();
  }
  size_t held = bs.size() + ss.size(); for (auto& s : ss) MC_CHECK((size_t) s.use_count() == held, "use count", "a shared export counts " + std::to_string(s.use_count()) + " owners instead of " + std::to_string(held));
  for (auto& b : bs) MC_CHECK((size_t) b.refcount() == held, "use count", "a buffer counts " + std::to_string(b.refcount()) + " owners instead of " + std::to_string(held));
}
template <template <class> class R> void refuse() {
  using B = dart::basic_buffer<R>; using P = dart::basic_packet<R>; using H = dart::basic_heap<R>; int kind = choose(7); mc::step(); Val v = Val::obj({{"a", Val::integer(1)}}); Raw bytes = encode(v); freed() = 0;
  auto bad = [] (Err e, char const* what) { MC_CHECK(e == Err::invalid, std::string("accepted: ") + what, std::string(what) + " gives " + name(e)); };
  if (kind == 0) { int k = choose(3); gsl::byte x[8] = {}; gsl::span<gsl::byte const> s = k == 0 ? gsl::span<gsl::byte const>() : gsl::span<gsl::byte const>(x, (std::ptrdiff_t) 0); if (k < 2) bad(attempt([&] { B b(s); }), "empty span"); else bad(attempt([&] { P b(s); }), "empty span into a packet"); }
  else if (kind == 1) { int k = choose(4); if (k == 0) { UFn u(nullptr, give_back); bad(attempt([&] { B b(std::move(u)); }), "null pointer"); } else if (k == 1) { std::unique_ptr<gsl::byte const[], Deleter> u(nullptr, Deleter {nullptr}); bad(attempt([&] { P b(std::move(u)); }), "null pointer into a packet"); } else if (k == 2) bad(attempt([&] { B b(fresh<R>()); }), "null counter"); else bad(attempt([&] { P b(fresh<R>()); }), "null counter into a packet"); }
  else if (kind == 2) { // misaligned adoption is refused, and the memory is still released exactly once
    size_t off = 1 + choose(7); int how = choose(5), dels = 0; { Place m(bytes.data(), bytes.size(), off); auto* at = m.p; freed_base() = m.base; m.base = nullptr;
      switch (how) { case 0: { UFn u(at, give_back); bad(attempt([&] { B b(std::move(u)); }), "misaligned pointer"); break; } case 1: { std::unique_ptr<gsl::byte const, Deleter> u(at, Deleter {&dels}); bad(attempt([&] { B b(std::move(u)); }), "misaligned pointer"); break; } case 2: { std::unique_ptr<gsl::byte, Deleter> u(at, Deleter {&dels}); bad(attempt([&] { P b(std::move(u)); }), "misaligned pointer into a packet"); break; }
        case 3: { dart::shareable_ptr<R<gsl::byte const>> s((gsl::byte const*) at, &give_back); bad(attempt([&] { B b(s); }), "misaligned counter"); MC_CHECK(s.use_count() == 1, "owners", "a refused counter keeps an owner"); break; } default: { dart::shareable_ptr<R<gsl::byte const>> s((gsl::byte const*) at, &give_back); bad(attempt([&] { P b(std::move(s)); }), "misaligned counter into a packet"); } } }
    MC_CHECK(freed() == 1, "releases", "memory refused was released " + std::to_string(freed()) + " times"); }
  else if (kind == 3) { // exports of what is not a finalized object
    Val const& x = pick(layout_values()); if (x.k == Val::Obj) mc::prune(); B w = build<H>(Val::obj({{"w", x}})).finalize(); B e = w["w"]; P p(e);
    MC_CHECK(attempt([&] { e.get_bytes(); }) == Err::type && attempt([&] { p.get_bytes(); }) == Err::type, "wrong error", "get_bytes of a non-object"); MC_CHECK(attempt([&] { e.dup_bytes(); }) == Err::type && attempt([&] { p.dup_bytes(); }) == Err::type, "wrong error", "dup_bytes of a non-object");
    auto s = fresh<R>(); if (x.k == Val::Null) MC_CHECK(attempt([&] { e.share_bytes(s.raw()); }) == Err::type && !s, "wrong error", "share_bytes of null"); else { size_t n = e.share_bytes(s.raw()); Raw r = encode(Val::obj({{"w", x}})); e = w = B::make_null(); p = P::make_null(); MC_CHECK(n == r.size() && !memcmp(s.get(), r.data(), n), "shared bytes", "share_bytes of an element"); } }
  else if (kind == 4) { Val const& x = pick(layout_values()); P p = build<P>(x); auto s = fresh<R>(); Err a = attempt([&] { p.get_bytes(); }), b = attempt([&] { p.dup_bytes(); }), c = attempt([&] { p.share_bytes(s.raw()); }); MC_CHECK(a == Err::state && b == Err::state && c == Err::state, "wrong error", std::string("exporting bytes of a dynamic packet gives ") + name(a) + "/" + name(b) + "/" + name(c)); MC_CHECK(!s, "counter touched", "a refused export changes the counter"); expect(p, x, "packet after a refused export"); }
  else if (kind == 5) { size_t off = choose(8), len = choose((int) bytes.size()); Place m(bytes.data(), len, off); MC_CHECK(!dart::is_valid(m.p, m.n), "truncated accepted", "validation accepts truncated or misaligned bytes"); if (len && !off) MC_CHECK(attempt([&] { dart::validate(m.p, m.n); }) == Err::validation, "truncated accepted", "validate() accepts truncated bytes"); }
  else { B b; P p {B()}; auto s = fresh<R>(); MC_CHECK(attempt([&] { b.get_bytes(); }) == Err::type && attempt([&] { b.share_bytes(s.raw()); }) == Err::type && attempt([&] { p.dup_bytes(); }) == Err::type, "wrong error", "exporting a null buffer"); }
  mc::nontrivial();
}
}
#define C24_SPACES(S, nm) \
MC_SPACE(trip_##S, "round-trip-" nm, "objects over 17 layouts, all boundary scalars, empty and up to 64 fields; exported by 5 ways from 12 holders (root, nested in object, nested in array; buffer, packet, typed), imported by 11 ways at several alignments, " nm " counter") { \
  int n = choose(values()), h = choose(kHolders), e = choose(kExports), i = mc::thorough() ? choose(kImports) : (n * 7 + h * 3 + e) % kImports; size_t off = mc::thorough() ? choose(8) * 8 + choose(2) : (n + h) % 8 * 9; MC_NOTE(dump(value_of(n)) + " holder " + std::to_string(h) + ", " + ex_name(e) + ", " + im_name(i)); trip<S>(h, e, i, off, value_of(n)); } \
MC_SPACE(comb_##S, "combinations-" nm, "six values, every holder, export, import and offset 0..63, " nm " counter") { \
  static int const pickv[] = {0, 8, 12, 16, 40, 70}; int n = pick(pickv) % values(), h = choose(kHolders), e = choose(kExports), i = choose(kImports); size_t off = mc::thorough() ? choose(64) : choose(8) * 9; MC_NOTE(dump(value_of(n)) + " holder " + std::to_string(h) + ", " + ex_name(e) + ", " + im_name(i)); trip<S>(h, e, i, off, value_of(n)); } \
MC_SPACE(shr_##S, "shared-" nm, "every history of 4 (thorough 5) steps of exporting, re-exporting over, importing, extracting and dropping shared bytes, " nm " counter") { shared_lives<S>(); } \
MC_SPACE(ref_##S, "refused-" nm, "empty, null, misaligned and truncated imports; exports of elements, dynamic packets and null, " nm " counter") { refuse<S>(); }
