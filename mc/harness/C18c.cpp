// Parsing and serialization. The text is the argument; memory rapidjson and libyaml get with malloc never runs out here.
#include "C18.hpp"
namespace {
std::vector<Val> const& texts() {
  static std::vector<Val> const v = [] {
    std::vector<Val> r; for (auto s : {"{}", "{\"a\":1}", "{\"a key that does not fit in place either\":[1,2.5,\"a string that does not fit in place anywhere\",{\"x\":null,\"y\":{\"\":true}}],\"b\":\"s\"}", "[1,\"a string that does not fit in place anywhere\",{\"k\":[]}]",
      "{\"a\":1,\"a\":[\"a string that does not fit in place anywhere\"]}", "{\"a\":[1,2,", "{\"a\":", "", "[}", "{\"a\":\"\\u00e9scaped so that it is copied \\n out\"}", "a: 1\nb: [x, 2.5, {c: d}]\nlong: a string that does not fit in place anywhere\n", "- 1\n- a: &x [1, 2]\n  b: ~\n", "a: *x\n", "a: [1, 2\n", "? [1]\n: 2\n", "a: [3.14159265358979323846264, 2.71828182845904523536028]\n", "{\"v\":\"a string of more than two hundred and fifty-five bytes ................................................................................................................................................................................................................................................\"}"}) r.push_back(Val::str(s));
    return r;
  }();
  return v;
}
template <class Q> dart::shim::string_view text(Q const& q) { return q.strv(); }
template <class P, class Q> void in() {
  Opt o; o.t = Val::obj({{"keep", Val::str(kLong)}}); o.tf = kind<P>::always_final; o.q = pick(texts()); Menu<P, Q> m; Effect e = strong;
  GIVES("from_json", P::from_json(text(w.q))) GIVES("from_json, permissive", P::template from_json<dart::parse_permissive>(text(w.q))) GIVES("from_yaml", P::from_yaml(text(w.q))) DOES("assignment from_json", w.t = P::from_json(text(w.q))) GIVES("parse", P::parse(text(w.q))) DOES("assignment from_yaml", w.t = P::from_yaml(text(w.q)))
  m.run(o);
}
template <class P> void in_final() {
  using Q = Hs; Opt o; o.t = Val::null(); o.q = pick(texts()); Menu<P, Q> m; Effect e = strong;
  GIVES("from_json, finalized", P::from_json(text(w.q), true)) GIVES("from_yaml, finalized", P::from_yaml(text(w.q), true)) GIVES("from_json, dynamic", P::from_json(text(w.q), false))
  m.run(o);
}
template <class P> void out(bool f) {
  using Q = P; Opt o; o.t = pick(objects()); if (!f && flip()) o.t = pick(arrays()); o.tf = f; Menu<P, Q> m; Effect e = strong;
  GIVES("to_json", w.t.to_json()) GIVES("to_json with nan", w.t.template to_json<dart::write_nan>()) GIVES("to_json of a nested value", P(w.t.get(kKey)).to_json())
  m.run(o);
}
MC_SPACE_X(parse, "parsing", "from_json and from_yaml of 17 texts, well-formed and not, into heaps, buffers and packets, both counters and both forms", 2, true) {
  switch (choose(8)) { case 0: in<Hs, Hs>(); break; case 1: in<Hu, Hs>(); break; case 2: in<Bs, Hs>(); break; case 3: in<Bu, Hs>(); break; case 4: in<Ps, Hs>(); break; case 5: in<Pu, Hs>(); break; case 6: in_final<Ps>(); break; default: in_final<Pu>(); }
}
MC_SPACE_X(print, "serialization", "to_json of 6 values in 8 representations", 2, true) {
  switch (choose(6)) { case 0: out<Hs>(false); break; case 1: out<Hu>(false); break; case 2: out<Bs>(true); break; case 3: out<Bu>(true); break; case 4: out<Ps>(flip()); break; default: out<Pu>(flip()); }
}
}
