// P34: the legacy tree against ordered lists, over every operation sequence.
#include <array>
#include <memory>
#include <string>
#include <vector>
#include "mc.hpp"
#include "CoMMA/deprecated/Tree.h"
using u64 = mc::u64;

namespace {
using T = comma::Tree<unsigned long, double, int>;
using N = T::NodeType;
using Ptr = std::shared_ptr<N>;
struct Item {
  unsigned long index;
  double volume;
  std::vector<Item> sons;
};
constexpr int kIdx = 3;
// Operations: append to the root, append under a son, delete a son
constexpr int kOps = kIdx + kIdx * kIdx + kIdx;
const int kMany[] = {2, 4, 7, 8, 9, 11, 12, 13, 16, 17, 31, 33, 64, 100};

std::string show(const std::vector<Item> &v) {
  std::string s = "[";
  for (auto &x : v) s += " " + std::to_string(x.index) + "/" + std::to_string(static_cast<int>(x.volume)) + (x.sons.empty() ? "" : show(x.sons));
  return s + " ]";
}
std::string name(int o) {
  if (o < kIdx) return " add(" + std::to_string(o) + ")";
  o -= kIdx;
  if (o < kIdx * kIdx) return " add(" + std::to_string(o % kIdx) + " under " + std::to_string(o / kIdx) + ")";
  return " delete(" + std::to_string(o - kIdx * kIdx) + ")";
}
size_t find(const std::vector<Item> &v, unsigned long i) {
  size_t k = 0;
  while (k < v.size() && v[k].index != i) ++k;
  return k;
}
void compare(const Ptr &father, const std::vector<Item> &ref, std::vector<Ptr> &all, mc::Ctx &ctx) {
  auto bad = [&](const std::string &s) { ctx.fail(s + ", expected " + show(ref)); };
  if (father->_sonc != static_cast<int>(ref.size())) bad("number of sons is " + std::to_string(father->_sonc));
  Ptr prev, cur = father->_left_son_idx;
  for (const auto &x : ref) {
    if (!cur) bad("list of sons too short");
    all.push_back(cur);
    if (cur->_index != x.index || cur->_volume != x.volume) bad("son " + std::to_string(cur->_index) + "/" + std::to_string(cur->_volume));
    if (cur->_father != father) bad("father of a son");
    if (cur->_left_idx != prev) bad("left link of a son");
    compare(cur, x.sons, all, ctx);
    prev = cur;
    cur = cur->_right_idx;
  }
  if (cur) bad("list of sons too long");
}
void run(const std::vector<int> &ops, unsigned long root_index, mc::Ctx &ctx) {
  Ptr root = std::make_shared<N>(root_index, 99.);
  T tree(root);
  std::vector<Item> ref;
  std::vector<Ptr> all{root};
  struct Cut {
    std::vector<Ptr> &v;
    ~Cut() {
      for (auto &p : v) p->_father = p->_left_idx = p->_right_idx = p->_left_son_idx = nullptr;
    }
  } cut{all};
  u64 h = root_index;
  double vol = 0;
  for (int o : ops) {
    vol += 1;
    const int under = o - kIdx, del = under - kIdx * kIdx;
    if (under < 0) {
      tree.insertSon(root_index, o, vol, 1);
      ref.push_back({static_cast<unsigned long>(o), vol, {}});
    } else if (del < 0) {
      const unsigned long f = under / kIdx, s = under % kIdx;
      const auto k = find(ref, f);
      if (k == ref.size()) return;  // the father must exist
      tree.insertSon(f, s, vol, 0);
      ref[k].sons.push_back({s, vol, {}});
    } else {
      tree.deleteNode(del);
      const auto k = find(ref, del);
      if (k < ref.size()) ref.erase(ref.begin() + static_cast<long>(k));
    }
    h = mc::mix(h, static_cast<u64>(o));
    ctx.state(h);
    ctx.trans();
    compare(tree._root, ref, all, ctx);
    for (unsigned long i = 0; i <= kIdx; ++i) {
      const auto k = find(ref, i);
      const auto p = tree.search(tree._root->_left_son_idx, i);
      if (k == ref.size() ? p != nullptr : !p || p->_index != i || p->_volume != ref[k].volume) ctx.fail("search of " + std::to_string(i));
    }
    const auto last = tree.transverse(tree._root->_left_son_idx);
    if (ref.empty() ? last != nullptr : !last || last->_volume != ref.back().volume) ctx.fail("last son");
    tree.print();
  }
  ctx.trace();
}
}  // namespace

int main(int argc, char **argv) {
  std::vector<mc::Space> sp;
  for (int len = 1; len <= (mc::is_thorough() ? 7 : 6); ++len) {
    u64 n = 1;
    for (int k = 0; k < len; ++k) n *= kOps;
    auto at = [=](u64 i) {
      std::vector<int> v;
      for (int k = 0; k < len; ++k, i /= kOps) v.push_back(static_cast<int>(i % kOps));
      return v;
    };
    for (unsigned long root : {1UL, 7UL})
      sp.push_back({"sequences" + std::to_string(len) + "-root" + std::to_string(root), "all sequences of " + std::to_string(len) + " of 15 operations (prefixes whose preconditions hold)", n,
                    [=](u64 i, mc::Ctx &ctx) { run(at(i), root, ctx); },
                    [=](u64 i) {
                      std::string s;
                      for (int o : at(i)) s += name(o);
                      return s;
                    },
                    4096});
  }
  // Many sons: orders of insertion, then deletions in every pattern
  {
    const u64 sizes = std::size(kMany);
    auto at = [=](u64 i) { return std::array<int, 4>{kMany[i % sizes], static_cast<int>(i / sizes % 6), static_cast<int>(i / sizes / 6 % 6), static_cast<int>(i / sizes / 36)}; };
    // k-th of n numbers in one of 6 orders
    auto order = [](int o, int k, int n) { return o == 0 ? k : o == 1 ? n - 1 - k : o == 2 ? (k % 2 ? n - 1 - k / 2 : k / 2) : o == 3 ? (k + n / 2) % n : o == 4 ? (2 * k < n ? 2 * k : 2 * k - n + (n % 2 == 0)) : (k + n - 1) % n; };
    auto describe = [=](u64 i) {
      const auto [n, in, out, deep] = at(i);
      return std::to_string(n) + " sons inserted in order " + std::to_string(in) + (deep ? " under a son" : " under the root") + ", deleted in order " + std::to_string(out);
    };
    sp.push_back({"many", "2 to 100 sons x 6 orders of insertion x 6 orders of deletion, each also with as many sons under the first and the last one", sizes * 72,
                  [=](u64 i, mc::Ctx &ctx) {
                    const auto [n, in, out, deep] = at(i);
                    const unsigned long r = 1000;
                    Ptr root = std::make_shared<N>(r, 99.);
                    T tree(root);
                    std::vector<Item> ref;
                    std::vector<Ptr> all{root};
                    struct Cut {
                      std::vector<Ptr> &v;
                      ~Cut() {
                        for (auto &p : v) p->_father = p->_left_idx = p->_right_idx = p->_left_son_idx = nullptr;
                      }
                    } cut{all};
                    auto check = [&] {
                      ctx.trans();
                      compare(tree._root, ref, all, ctx);
                      for (int x = 0; x <= n; ++x) {
                        const auto k = find(ref, static_cast<unsigned long>(x));
                        const auto p = tree.search(tree._root->_left_son_idx, static_cast<unsigned long>(x));
                        if (k == ref.size() ? p != nullptr : !p || p->_index != static_cast<unsigned long>(x) || p->_volume != ref[k].volume) ctx.fail("search of " + std::to_string(x));
                      }
                      const auto last = tree.transverse(tree._root->_left_son_idx);
                      if (ref.empty() ? last != nullptr : !last || last->_volume != ref.back().volume) ctx.fail("last son");
                    };
                    double vol = 0;
                    for (int k = 0; k < n; ++k) {
                      const auto x = static_cast<unsigned long>(order(in, k, n));
                      tree.insertSon(r, x, ++vol, 1);
                      ref.push_back({x, vol, {}});
                      check();
                    }
                    if (deep)
                      for (size_t f : {size_t{0}, ref.size() - 1})
                        for (int k = 0; k < n; ++k) {
                          tree.insertSon(ref[f].index, static_cast<unsigned long>(2000 + k), ++vol, 0);
                          ref[f].sons.push_back({static_cast<unsigned long>(2000 + k), vol, {}});
                          if (k + 1 == n) check();
                        }
                    for (int k = 0; k < n; ++k) {
                      const auto x = static_cast<unsigned long>(order(out, k, n));
                      tree.deleteNode(x);
                      const auto q = find(ref, x);
                      if (q < ref.size()) ref.erase(ref.begin() + static_cast<long>(q));
                      check();
                    }
                    ctx.trace();
                    ctx.state(mc::mix(41, i));
                  },
                  describe, 1});
  }
  mc::Options opt;
  opt.property = "P34";
  opt.rule = "sons, links, counts, search and last son equal those of ordered lists after every operation";
  opt.states_meaning = "distinct operation prefixes";
  opt.transitions_meaning = "operations after which the whole tree was compared";
  opt.traces_meaning = "complete sequences whose preconditions hold";
  return mc::drive(argc, argv, opt, sp);
}
