// A stand-in for the parts of OpenFst the runtime uses, with their documented meaning: reading a vector or const FST of standard arcs,
// byte strings as acceptors and back, composition and the single shortest path. Written for checking the runtime around it, not for speed.
#ifndef SHIM_FST_FSTLIB_H_
#define SHIM_FST_FSTLIB_H_
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>

#include <glog/logging.h>  // as the OpenFst port of the runtime does

namespace fst {
constexpr int kNoStateId = -1;
constexpr int kNoLabel = -1;

class TropicalWeight {
 public:
  TropicalWeight() : value_(0) {}
  TropicalWeight(float value) : value_(value) {}  // NOLINT
  float Value() const { return value_; }
  static TropicalWeight Zero() { return std::numeric_limits<float>::infinity(); }
  static TropicalWeight One() { return 0.0f; }
  bool operator==(const TropicalWeight& o) const { return value_ == o.value_; }
  bool operator!=(const TropicalWeight& o) const { return value_ != o.value_; }

 private:
  float value_;
};

struct StdArc {
  using Label = int;
  using StateId = int;
  using Weight = TropicalWeight;
  Label ilabel = 0;
  Label olabel = 0;
  Weight weight;
  StateId nextstate = kNoStateId;
  StdArc() = default;
  StdArc(Label i, Label o, Weight w, StateId n) : ilabel(i), olabel(o), weight(w), nextstate(n) {}
  StdArc(Label i, Label o, StateId n) : ilabel(i), olabel(o), weight(0.0f), nextstate(n) {}
};

template <class A>
class VectorFst {
 public:
  using Arc = A;
  using StateId = typename A::StateId;
  using Weight = typename A::Weight;
  struct State {
    Weight final_weight = Weight::Zero();
    std::vector<A> arcs;
    mutable std::unordered_map<int, std::vector<int>> by_input;
    mutable bool indexed = false;
  };

  static VectorFst* Read(const std::string& path) {
    std::ifstream in(path, std::ios::binary);
    if (!in) {
      std::cerr << "ERROR: VectorFst::Read: Can't open file: " << path << std::endl;
      return nullptr;
    }
    auto number = [&in](auto value) {
      in.read(reinterpret_cast<char*>(&value), sizeof(value));
      return value;
    };
    auto text = [&in, &number]() {
      const int32_t n = number(int32_t());
      std::string s(in && n > 0 && n < 4096 ? n : 0, '\0');
      in.read(s.data(), s.size());
      return s;
    };
    const int32_t magic = number(int32_t());
    const std::string kind = text(), arc = text();
    number(int32_t());
    const int32_t flags = number(int32_t());
    number(uint64_t());
    const int64_t start = number(int64_t()), states = number(int64_t());
    number(int64_t());
    if (!in || magic != 2125659606 || kind != "vector" || arc != "standard" || (flags & 3) || states < 0) {
      std::cerr << "ERROR: VectorFst::Read: not a vector FST of standard arcs: " << path << std::endl;
      return nullptr;
    }
    auto fst = std::make_unique<VectorFst>();
    fst->start_ = static_cast<int>(start);
    for (int64_t s = 0; s < states; ++s) {
      fst->states_.emplace_back();
      State& state = fst->states_.back();
      state.final_weight = Weight(number(float()));
      const int64_t arcs = number(int64_t());
      for (int64_t a = 0; in && a < arcs; ++a) {
        A one;
        one.ilabel = number(int32_t());
        one.olabel = number(int32_t());
        one.weight = Weight(number(float()));
        one.nextstate = number(int32_t());
        state.arcs.push_back(one);
      }
      if (!in) {
        std::cerr << "ERROR: VectorFst::Read: read failed: " << path << std::endl;
        return nullptr;
      }
    }
    for (const State& state : fst->states_)
      for (const A& a : state.arcs)
        if (a.nextstate < 0 || a.nextstate >= states) return nullptr;
    if (start >= states) return nullptr;
    return fst.release();
  }

  VectorFst* Copy(bool = false) const { return new VectorFst(*this); }
  StateId Start() const { return start_; }
  Weight Final(StateId s) const { return states_.at(s).final_weight; }
  StateId NumStates() const { return static_cast<StateId>(states_.size()); }
  size_t NumArcs(StateId s) const { return states_.at(s).arcs.size(); }
  StateId AddState() {
    states_.emplace_back();
    return NumStates() - 1;
  }
  void AddArc(StateId s, const A& arc) { states_.at(s).arcs.push_back(arc); }
  void SetStart(StateId s) { start_ = s; }
  void SetFinal(StateId s, Weight w = Weight::One()) { states_.at(s).final_weight = w; }
  void DeleteStates() {
    states_.clear();
    start_ = kNoStateId;
  }
  const std::vector<A>& Arcs(StateId s) const { return states_.at(s).arcs; }
  const std::vector<int>& Matching(StateId s, int label) const {
    static const std::vector<int> none;
    const State& state = states_.at(s);
    if (!state.indexed) {
      for (size_t i = 0; i < state.arcs.size(); ++i) state.by_input[state.arcs[i].ilabel].push_back(static_cast<int>(i));
      state.indexed = true;
    }
    auto found = state.by_input.find(label);
    return found == state.by_input.end() ? none : found->second;
  }

 private:
  std::vector<State> states_;
  StateId start_ = kNoStateId;
};
using StdVectorFst = VectorFst<StdArc>;
using StdFst = StdVectorFst;

enum class TokenType : uint8_t { SYMBOL, BYTE, UTF8 };

template <class A>
class StringCompiler {
 public:
  explicit StringCompiler(TokenType = TokenType::BYTE) {}
  bool operator()(std::string_view s, VectorFst<A>* fst) const { return (*this)(s, fst, A::Weight::One()); }
  bool operator()(std::string_view s, VectorFst<A>* fst, typename A::Weight w) const {
    fst->DeleteStates();
    fst->SetStart(fst->AddState());
    for (unsigned char c : s) {
      const int next = fst->AddState();
      fst->AddArc(next - 1, A(c, c, A::Weight::One(), next));
    }
    fst->SetFinal(fst->NumStates() - 1, w);
    return true;
  }
};

template <class A>
class StringPrinter {
 public:
  explicit StringPrinter(TokenType = TokenType::BYTE) {}
  bool operator()(const VectorFst<A>& fst, std::string* out) const {
    out->clear();
    int s = fst.Start();
    if (s == kNoStateId) return false;
    while (fst.Final(s) == A::Weight::Zero()) {
      if (fst.NumArcs(s) != 1) return false;
      const A& arc = fst.Arcs(s)[0];
      if (arc.olabel) out->push_back(static_cast<char>(arc.olabel));
      s = arc.nextstate;
    }
    return fst.NumArcs(s) == 0;
  }
};

enum ComposeFilter { AUTO_FILTER };
struct ComposeOptions {
  bool connect = true;
  explicit ComposeOptions(bool connect = true, ComposeFilter = AUTO_FILTER) : connect(connect) {}
};

template <class A>
void Connect(VectorFst<A>*) {}  // The shortest path ignores useless states.
enum ArcSortType { ILABEL_SORT, OLABEL_SORT };
template <class A>
struct ILabelCompare {};
template <class A>
struct OLabelCompare {};
template <class A, class C>
void ArcSort(VectorFst<A>*, C) {}

template <class A>
void Compose(const VectorFst<A>& left, const VectorFst<A>& right, VectorFst<A>* out, const ComposeOptions& = ComposeOptions()) {
  out->DeleteStates();
  if (left.Start() == kNoStateId || right.Start() == kNoStateId) return;
  std::map<std::pair<int, int>, int> ids;
  std::deque<std::pair<int, int>> todo;
  auto id = [&](int a, int b) {
    auto [at, fresh] = ids.try_emplace({a, b}, out->NumStates());
    if (fresh) {
      out->AddState();
      todo.push_back({a, b});
    }
    return at->second;
  };
  out->SetStart(id(left.Start(), right.Start()));
  while (!todo.empty()) {
    const auto [a, b] = todo.front();
    todo.pop_front();
    const int s = ids[{a, b}];
    if (left.Final(a) != A::Weight::Zero() && right.Final(b) != A::Weight::Zero()) out->SetFinal(s, left.Final(a).Value() + right.Final(b).Value());
    for (const A& x : left.Arcs(a)) {
      if (x.olabel == 0) {
        out->AddArc(s, A(x.ilabel, 0, x.weight, id(x.nextstate, b)));
        continue;
      }
      for (int i : right.Matching(b, x.olabel)) {
        const A& y = right.Arcs(b)[i];
        out->AddArc(s, A(x.ilabel, y.olabel, x.weight.Value() + y.weight.Value(), id(x.nextstate, y.nextstate)));
      }
    }
    for (int i : right.Matching(b, 0)) {
      const A& y = right.Arcs(b)[i];
      out->AddArc(s, A(0, y.olabel, y.weight, id(a, y.nextstate)));
    }
  }
}

template <class A>
void ShortestPath(const VectorFst<A>& fst, VectorFst<A>* out, int32_t nshortest = 1, bool = false) {
  CHECK_EQ(nshortest, 1) << "this stand-in only gives the single shortest path";
  out->DeleteStates();
  if (fst.Start() == kNoStateId) return;
  const double none = std::numeric_limits<double>::infinity();
  std::vector<double> best(fst.NumStates(), none);
  std::vector<std::pair<int, int>> back(fst.NumStates(), {-1, -1});
  std::vector<char> queued(fst.NumStates(), 0);
  std::deque<int> todo{fst.Start()};
  best[fst.Start()] = 0;
  while (!todo.empty()) {
    const int s = todo.front();
    todo.pop_front();
    queued[s] = 0;
    const auto& arcs = fst.Arcs(s);
    for (size_t i = 0; i < arcs.size(); ++i) {
      const double d = best[s] + arcs[i].weight.Value();
      if (d < best[arcs[i].nextstate] - 1e-9) {
        best[arcs[i].nextstate] = d;
        back[arcs[i].nextstate] = {s, static_cast<int>(i)};
        if (!queued[arcs[i].nextstate]) {
          queued[arcs[i].nextstate] = 1;
          todo.push_back(arcs[i].nextstate);
        }
      }
    }
  }
  int end = -1;
  double least = none;
  for (int s = 0; s < fst.NumStates(); ++s) {
    if (best[s] == none || fst.Final(s) == A::Weight::Zero()) continue;
    if (best[s] + fst.Final(s).Value() < least) {
      least = best[s] + fst.Final(s).Value();
      end = s;
    }
  }
  if (end < 0) return;
  std::vector<A> path;
  for (int s = end; s != fst.Start(); s = back[s].first) path.push_back(fst.Arcs(back[s].first)[back[s].second]);
  out->SetStart(out->AddState());
  int s = 0;
  for (auto arc = path.rbegin(); arc != path.rend(); ++arc) {
    const int next = out->AddState();
    out->AddArc(s, A(arc->ilabel, arc->olabel, arc->weight, next));
    s = next;
  }
  out->SetFinal(s, fst.Final(end));
}
}  // namespace fst
#endif  // SHIM_FST_FSTLIB_H_
