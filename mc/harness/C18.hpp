// C18: every allocation an operation makes is failed in turn. Outcome, target, arguments, bystanders sharing their
// storage, reference counts and live bytes are compared with what they were; then the operation is tried again.
#pragma once
#include "../model.hpp"
#include <deque>
#include <list>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>
using namespace mdl;
using mc::choose; using mc::pick; using mc::flip;
namespace conv = dart::convert;
namespace {

using Hs = dart::heap; using Hu = dart::unsafe_heap; using Bs = dart::buffer; using Bu = dart::unsafe_buffer; using Ps = dart::packet; using Pu = dart::unsafe_packet;
template <class T> struct kind; // which dynamic type builds it, and its name
#define C18_KIND(T, HH, nm, fin, dyn) template <> struct kind<T> { using heap = HH; static constexpr char const* name = nm; static constexpr bool always_final = fin, dynamic = dyn; };
C18_KIND(Hs, Hs, "heap", false, true) C18_KIND(Hu, Hu, "unsafe heap", false, true) C18_KIND(Bs, Hs, "buffer", true, false) C18_KIND(Bu, Hu, "unsafe buffer", true, false)
C18_KIND(Ps, Hs, "packet", false, false) C18_KIND(Pu, Hu, "unsafe packet", false, false)

// Finalized values other than objects live inside an object.
template <class P> P make(Val const& v, bool fin) {
  using H = typename kind<P>::heap;
  if (!fin) return conv::cast<P>(build<H>(v));
  auto b = H::make_object("v", build<H>(v)).finalize();
  if (v.k == Val::Obj) return conv::cast<P>(build<H>(v).finalize());
  auto inner = b["v"]; return conv::cast<P>(std::move(inner));
}
template <> inline Bs make<Bs>(Val const& v, bool) { if (v.k == Val::Obj) return build<Hs>(v).finalize(); auto b = Hs::make_object("v", build<Hs>(v)).finalize(); return b["v"]; }
template <> inline Bu make<Bu>(Val const& v, bool) { if (v.k == Val::Obj) return build<Hu>(v).finalize(); auto b = Hu::make_object("v", build<Hu>(v)).finalize(); return b["v"]; }
template <> inline Hs make<Hs>(Val const& v, bool) { return build<Hs>(v); }
template <> inline Hu make<Hu>(Val const& v, bool) { return build<Hu>(v); }

// What an operation returned, as text.
template <class P, class = decltype(std::declval<P const&>().get_type())> std::string dig(P const& p, int = 0) { return dump(read(p)) + (p.is_finalized() ? "F" : "D"); }
inline std::string dig(std::string const& s) { return s; }
inline std::string dig(char const* s) { return s ? s : "(null)"; }
inline std::string dig(std::unique_ptr<char[]> const& s) { return s ? s.get() : "(null)"; }
template <class T> std::enable_if_t<std::is_arithmetic<T>::value, std::string> dig(T v) { return std::to_string(v); }
template <class C, class = decltype(std::declval<C const&>().begin()), class = decltype(std::declval<C const&>().max_size())> std::string dig(C const& c, char = 0);
template <class A, class B> std::string dig(std::pair<A, B> const& p) { return dig(p.first) + ":" + dig(p.second); }
template <class T> std::string dig(dart::shim::optional<T> const& o) { return o ? "some " + dig(*o) : std::string("none"); }
template <class C, class, class> std::string dig(C const& c, char) { std::multiset<std::string> all; std::string o; for (auto& e : c) o += dig(e) + ";"; return o; }
template <class K, class V, class... R> std::string dig(std::unordered_map<K, V, R...> const& c) { std::set<std::string> all; for (auto& e : c) all.insert(dig(e)); return dig(all); }
template <class K, class... R> std::string dig(std::unordered_set<K, R...> const& c) { std::set<std::string> all; for (auto& e : c) all.insert(dig(e)); return dig(all); }

template <class P, class Q> struct World {
  P t; Q q; P tshare; Q qshare;
  World(Val const& tv, bool tf, bool ts, Val const& qv, bool qf, bool qs) : t(make<P>(tv, tf)), q(make<Q>(qv, qf)) { if (ts) tshare = t; if (qs) qshare = q; }
};

enum Effect { strong, consumes };   // consumes: the operation is given its target or argument to use up
struct Opt { Val t; bool tf = false; Val q; bool qf = false; Effect eff = strong; };

template <class P> void same_as(P const& p, std::string const& before, char const* who, std::string const& what) {
  auto now = dig(p); if (now != before) mc::fail(std::string(who) + " changed: " + what, std::string("after ") + what + " ran out of memory the " + who + " is " + now + ", was " + before);
}

// The operation itself: stops failing allocations once it is through, then describes what it returned.
static long long c18_seen;
inline void through() { c18_seen = mc::alloc_seen; mc::alloc_fail_at = -1; }
template <class P, class Q> using Op = void (*)(World<P, Q>&, std::string&);

template <class P, class Q> void drill(char const* name, Opt const& o, Op<P, Q> op) {
  using W = World<P, Q>;
  bool ts = flip(), qs = flip();
  std::string what = std::string(name) + " on " + kind<P>::name + (o.tf ? " (finalized)" : "") + (ts ? " shared" : "") + " with " + kind<Q>::name + (o.qf ? " (finalized)" : "") + (qs ? " shared" : "");
  MC_NOTE(what + ": target " + dump(o.t) + ", argument " + dump(o.q));
  struct Out { Err e; std::string res, post, arg; };
  auto run = [&] (W& w, long long k) {
    Out out; mc::alloc_fail_at = k; out.e = attempt([&] { op(w, out.res); }); if (out.e != Err::none) through(); mc::step();
    out.post = dig(w.t); out.arg = dig(w.q); return out;
  };
  // What happens with memory to spare, and how many allocations that takes.
  Out ref; long long n; { W w(o.t, o.tf, ts, o.q, o.qf, qs); ref = run(w, -1); }
  { W w(o.t, o.tf, ts, o.q, o.qf, qs); std::string r; auto before = mc::alloc_seen; if (attempt([&] { op(w, r); }) != Err::none) through(); n = c18_seen - before; }
  auto id = mc::hash_str(what + dump(o.t) + dump(o.q)); mc::state(id);
  if (!n) { MC_NOTE("no allocations"); return; }
  W w(o.t, o.tf, ts, o.q, o.qf, qs);
  auto t0 = dig(w.t), q0 = dig(w.q), ts0 = dig(w.tshare), qs0 = dig(w.qshare); auto tc = w.t.refcount(), qc = w.q.refcount();
  for (int round = 0; round < (mc::thorough() ? 2 : 1); ++round) {
    long long k = choose((int) n); MC_NOTE("allocation " + std::to_string(k + 1) + " of " + std::to_string(n) + " fails"); mc::nontrivial(); mc::state(mc::mix(id, k + 1));
    Out out = run(w, k);
    same_as(w.tshare, ts0, "value sharing the target", what); same_as(w.qshare, qs0, "value sharing the argument", what);
    if (out.e != Err::memory) {
      // It found another way; then everything is as it would have been.
      MC_CHECK(out.e == ref.e && out.res == ref.res && out.post == ref.post, "wrong outcome: " + what, what + " without memory gave " + mdl::name(out.e) + " and " + out.res + " leaving " + out.post + ", expected " + mdl::name(ref.e) + " and " + ref.res + " leaving " + ref.post);
      return;
    }
    if (o.eff == strong) {
      same_as(w.t, t0, "target", what); same_as(w.q, q0, "argument", what);
      // A target that shared its contents may have made its own copy of them already.
      MC_CHECK((w.t.refcount() == tc || (ts && w.t.refcount() == 1)) && w.q.refcount() == qc, "owners: " + what, "after " + what + " ran out of memory the target and argument have " + std::to_string(w.t.refcount()) + " and " + std::to_string(w.q.refcount()) + " owners, had " + std::to_string(tc) + " and " + std::to_string(qc));
    } else { w.t = make<P>(o.t, o.tf); if (ts) w.tshare = w.t; w.q = make<Q>(o.q, o.qf); if (qs) w.qshare = w.q; }
  }
  Out again = run(w, -1);
  MC_CHECK(again.e == ref.e && again.res == ref.res && again.post == ref.post && again.arg == ref.arg, "retry: " + what, what + " retried gave " + mdl::name(again.e) + " and " + again.res + " leaving " + again.post + ", expected " + mdl::name(ref.e) + " and " + ref.res + " leaving " + ref.post);
  same_as(w.tshare, ts0, "value sharing the target, on retry", what); same_as(w.qshare, qs0, "value sharing the argument, on retry", what);
}

template <class P, class Q> struct Menu {
  struct Item { char const* name; Effect eff; Op<P, Q> op; }; std::vector<Item> items;
  void run(Opt o) { auto& i = items[choose((int) items.size())]; o.eff = i.eff; drill<P, Q>(i.name, o, i.op); }
};
// Operations whose result matters, and those whose effect does.
#define GIVES(text, expr) m.items.push_back({text, e, [] (World<P, Q>& w, std::string& res) { auto r = expr; through(); res = dig(r); }});
#define DOES(text, expr) m.items.push_back({text, e, [] (World<P, Q>& w, std::string&) { expr; through(); }});

std::string const kLong = "a string that does not fit in place anywhere", kKey = "a key that does not fit in place either";
std::vector<Val> const& objects() { static std::vector<Val> const v {Val::obj(), Val::obj({{"a", Val::integer(1)}}), Val::obj({{"a", Val::str(kLong)}, {"b", Val::arr({Val::integer(2), Val::str("s")})}, {kKey, Val::obj({{"x", Val::decimal(0.5)}})}})}; return v; }
std::vector<Val> const& arrays() { static std::vector<Val> const v {Val::arr(), Val::arr({Val::integer(1)}), Val::arr({Val::str(kLong), Val::obj({{"k", Val::arr({Val::null()})}}), Val::integer(7)})}; return v; }
std::vector<Val> const& args() { static std::vector<Val> const v {Val::integer(5), Val::str("short"), Val::str(kLong), Val::arr({Val::integer(1), Val::arr({Val::str(kLong)})}), Val::obj({{"z", Val::obj({{kKey, Val::boolean(true)}})}})}; return v; }

}
