#include "replay.h"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/graph_util.hpp"
using namespace sim_ds; using rp::Rng;
template <class Item, class Size> static void run(Rng& r) { using T = graph_util::Trie<Item, Size>; T t; std::map<std::string, Item> m; int n = r.size(60), k = r.coin() ? r.range(1, 3) : r.range(1, 255), base = r.range(1, 256 - k); std::string d; auto key = [&] { std::string x; if (m.size() && r.coin(1, 3)) { auto it = m.begin(); std::advance(it, r.below(m.size())); x = it->first.substr(0, r.below(it->first.size() + 1)); } int l = r.below(5); while (l--) x += (char)(base + r.below(k)); return x; };
  while (n--) { auto x = key(); Item v = (Item)r.next(); d += rp::bytes(x, 20) + "=" + std::to_string(v) + " "; rp::describe(d.substr(0, 1500)); Item* p = t.insert(x, v); m[x] = v; REQ(p && *p == v, "returned item"); auto* q = t.traverse(x); REQ(q && *q == v, "traverse after insert"); }
  for (auto& e : m) { auto* q = t.traverse(e.first); REQ(q, "key lost ", rp::bytes(e.first)); REQ(*q == e.second, "item of ", rp::bytes(e.first), " is ", *q, " not ", e.second); } for (int i = 0; i < 30; i++) { auto x = key(); if (r.coin()) x += (char)(1 + r.below(255)); REQ((t.traverse(x) != nullptr) == (m.count(x) > 0), "query ", rp::bytes(x)); }
  std::set<std::string> pre; pre.insert(""); for (auto& e : m) for (size_t l = 0; l <= e.first.size(); l++) pre.insert(e.first.substr(0, l)); REQ(t.size() == pre.size() + m.size(), "nodes ", t.size(), " expected ", pre.size() + m.size());
  // every node reached by exactly one labelled path, with exactly the children the key set asks for
  std::map<size_t, std::string> path; path[0] = ""; std::set<std::string> found; std::vector<size_t> todo{0}; size_t visited = 0; while (todo.size()) { auto id = todo.back(); todo.pop_back(); visited++; auto p = path[id]; bool leaf = p.size() && p.back() == '\0'; if (leaf) { REQ(t.node(id).terminal(), "leaf not terminal"); found.insert(p.substr(0, p.size() - 1)); } else { REQ(t.node(id).item_index() == (Size)T::kItemEmpty, "inner node has an item"); REQ(!t.node(id).terminal(), "inner node is terminal"); REQ(pre.count(p), "path ", rp::bytes(p), " is no prefix of a key"); } size_t deg = 0; t.node(id).for_each_edge([&](uint8_t c, size_t to) { deg++; REQ(to > 0 && to < t.size(), "child index"); REQ(!path.count(to), "node reached twice"); path[to] = p + (char)c; todo.push_back(to); REQ(t.node(id).target(c) == to, "target"); }); if (leaf) REQ(deg == 0, "leaf has children"); } REQ(visited == t.size(), "unreachable nodes"); REQ(found.size() == m.size(), "accepted keys ", found.size()); for (auto& e : m) REQ(found.count(e.first), "leaf of ", rp::bytes(e.first));
  size_t dn = 0, bn = 0; std::vector<size_t> bd; bool mono = true; t.dfs([&](auto& nd, auto dep) { dn++; }); t.bfs([&](auto& nd, auto dep) { bn++; if (bd.size() && dep < bd.back()) mono = false; bd.push_back(dep); }); REQ(dn == t.size(), "dfs visits ", dn); REQ(bn == t.size() && mono, "bfs visits ", bn); rp::nontrivial += m.size() > 1; }
CASE(ints) { run<int, size_t>(r); }
CASE(words) { run<uint64_t, size_t>(r); }
CASE(small) { run<int, int>(r); }
CASE(nul_keys) { graph_util::Trie<int, int> t; graph_util::Trie<int, size_t> z; std::map<std::string, int> m; std::string d; auto key = [&] { std::string x; int l = r.below(5); while (l--) x += (char)r.below(3); return x; }; for (int n = r.size(30); n--;) { auto x = key(); int v = (int)r.next(); d += rp::bytes(x, 20) + " "; rp::describe(d); t.insert(x, v); z.insert(x, v); m[x] = v; }
  for (int i = 0; i < 60; i++) { auto x = key(); auto it = m.find(x); auto chk = [&](auto* q) { REQ((q != nullptr) == (it != m.end()), "query ", rp::bytes(x)); if (q) REQ(*q == it->second, "item of ", rp::bytes(x)); }; chk(t.traverse(x)); chk(z.traverse(x)); } }
