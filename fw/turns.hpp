// Two handlers that are called in turns: what one is told must not reach the other.
#ifndef VERIF_TURNS_HPP
#define VERIF_TURNS_HPP
#include <deque>
#include <functional>
#include "model.hpp"

namespace turns {
using Osmium::OSM::Meta; using Osmium::OSM::Node; using Osmium::OSM::Way; using Osmium::OSM::Relation;

// keeps the calls meant for a handler until they are wanted
template <class H> struct Later : public Osmium::Handler::Base {
    H& h; std::deque<std::function<void()>> q; Later(H& x) : h(x) {}
    void init(Meta& m) { auto k = std::make_shared<Meta>(m); q.push_back([=] { h.init(*k); }); }
    void before_nodes() { q.push_back([=] { h.before_nodes(); }); } void after_nodes() { q.push_back([=] { h.after_nodes(); }); }
    void before_ways() { q.push_back([=] { h.before_ways(); }); } void after_ways() { q.push_back([=] { h.after_ways(); }); }
    void before_relations() { q.push_back([=] { h.before_relations(); }); } void after_relations() { q.push_back([=] { h.after_relations(); }); }
    void node(const shared_ptr<Node>& o) { q.push_back([=] { h.node(o); }); } void way(const shared_ptr<Way>& o) { q.push_back([=] { h.way(o); }); } void relation(const shared_ptr<Relation>& o) { q.push_back([=] { h.relation(o); }); }
    void final() { q.push_back([=] { h.final(); }); }
    bool stopped = false;
    void step() { if (q.empty()) return; auto f = q.front(); q.pop_front(); try { f(); } catch (const Osmium::Handler::StopReading&) { q.clear(); stopped = true; } }
};
// feeds one handler at once and the other, from its queue, in between
template <class A, class B> void feed_both(pbt::Ctx& c, A& a, const model::Data& d, Later<B>& b, bool multi) {
    Later<A> x(a); model::feed(x, d, multi); while (!x.q.empty() || !b.q.empty()) { bool first = b.q.empty() || (!x.q.empty() && c.chance(50)); if (first) x.step(); else b.step(); }
}
}
#endif
