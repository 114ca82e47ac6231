// Mutation of objects and arrays.
#include "C18.hpp"
namespace {
template <class P, class Q> void object_menu(bool qf) {
  Opt o; o.t = pick(objects()); o.q = pick(args()); o.qf = qf; Menu<P, Q> m; Effect e = strong;
  DOES("insert new key", w.t.insert("new", w.q)) DOES("insert existing key", w.t.insert("a", w.q)) DOES("insert long key", w.t.insert(kKey + "!", w.q)) DOES("insert long existing key", w.t.insert(kKey, w.q))
  DOES("set key", w.t.set("a", w.q)) DOES("set missing key", w.t.set("nope", w.q)) DOES("add_field", w.t.add_field(kKey + "2", w.q)) DOES("add_field of a C string", w.t.add_field("cs", kLong.c_str()))
  DOES("insert at an iterator", if (!w.t.empty()) w.t.insert(w.t.begin(), w.q)) DOES("set at an iterator", if (!w.t.empty()) w.t.set(w.t.begin(), w.q))
  DOES("erase key", w.t.erase("a")) DOES("erase missing key", w.t.erase("nope")) DOES("erase at an iterator", if (!w.t.empty()) w.t.erase(w.t.begin())) DOES("remove_field", w.t.remove_field(kKey))
  DOES("clear", w.t.clear()) DOES("push_back to an object", w.t.push_back(w.q)) DOES("insert number key", w.t.insert(3, w.q)) DOES("reserve", w.t.reserve(9))
  DOES("assignment", w.t = P(w.q)) DOES("insert itself", w.t.insert("self", w.t))
  e = consumes; DOES("insert, given away", w.t.insert("new", std::move(w.q))) DOES("set, given away", w.t.set("a", std::move(w.q))) GIVES("add_field, chained", std::move(w.t).add_field("new", std::move(w.q)).add_field(kKey + "3", kLong).remove_field("a"))
  m.run(o);
}
template <class P, class Q> void array_menu(bool qf) {
  Opt o; o.t = pick(arrays()); o.q = pick(args()); o.qf = qf; Menu<P, Q> m; Effect e = strong;
  DOES("push_back", w.t.push_back(w.q)) DOES("push_front", w.t.push_front(w.q)) DOES("insert at 0", w.t.insert(0, w.q)) DOES("insert at 1", w.t.insert(1, w.q)) DOES("set 0", w.t.set(0, w.q)) DOES("insert at an iterator", w.t.insert(w.t.begin(), w.q)) DOES("set at an iterator", w.t.set(w.t.begin(), w.q))
  DOES("push_back of a string", w.t.push_back(kLong)) DOES("pop_back", w.t.pop_back()) DOES("pop_front", w.t.pop_front()) DOES("erase 0", w.t.erase(0)) DOES("erase at an iterator", w.t.erase(w.t.begin())) DOES("clear", w.t.clear())
  DOES("reserve", w.t.reserve(20)) DOES("resize up", w.t.resize(12, w.q)) DOES("resize up with a string", w.t.resize(5, kLong)) DOES("resize down", w.t.resize(0)) DOES("insert key into an array", w.t.insert("key", w.q)) DOES("assignment", w.t = P(w.q)) DOES("push_back itself", w.t.push_back(w.t))
  e = consumes; DOES("push_back, given away", w.t.push_back(std::move(w.q))) DOES("set, given away", w.t.set(0, std::move(w.q))) GIVES("push_back, chained", std::move(w.t).push_back(std::move(w.q)).push_front(kLong).pop_back())
  m.run(o);
}
template <template <class, class> class F> void pairs() {
  switch (choose(9)) {
    case 0: F<Hs, Hs>::go(false); break; case 1: F<Hu, Hu>::go(false); break; case 2: F<Ps, Ps>::go(flip()); break; case 3: F<Pu, Pu>::go(flip()); break;
    case 4: F<Hs, Bs>::go(true); break; case 5: F<Ps, Bs>::go(true); break; case 6: F<Ps, Hs>::go(false); break; case 7: F<Pu, Bu>::go(true); break; default: F<Hu, Bu>::go(true);
  }
}
template <class P, class Q> struct ObjF { static void go(bool f) { object_menu<P, Q>(f); } };
template <class P, class Q> struct ArrF { static void go(bool f) { array_menu<P, Q>(f); } };
MC_SPACE_X(objects, "objects", "23 mutations of 3 objects with 5 arguments, heaps, packets, both counters, dynamic and finalized arguments, target and argument shared or not: every failing allocation (thorough: two in a row)", 3, true) { pairs<ObjF>(); }
MC_SPACE_X(arrays, "arrays", "23 mutations of 3 arrays with 5 arguments, in the same configurations", 3, true) { pairs<ArrF>(); }
}
