// Profiles built from arbitrary samples.
#include <cstring>
#include <string>
#include <vector>

#include "ruy/profiler/instrumentation.h"
#include "ruy/profiler/treeview.h"
#include "verif.h"

#ifdef VERIF_SYMBOLIC
// The part of the standard library behind ordered maps, without rebalancing.
#include <map>
template class std::basic_string<char>;
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& header) noexcept {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left) {
      header._M_left = x;
    }
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_left) {
    x = x->_M_left;
    while (x->_M_right) x = x->_M_right;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
}  // namespace std
#endif

namespace {
using ruy::profiler::Label;
using ruy::profiler::TreeView;
using Node = TreeView::Node;
using ruy::profiler::detail::Stack;

constexpr int kMaxSamples = 4, kMaxDepth = 3;
const char* const kFormats[] = {"pack", "kernel %d", "block %d %d", "kernel %x"};

struct Frame {
  int format;
  int args[2];
};
struct Sample {
  std::uint32_t id;
  int size;
  Frame frames[kMaxDepth];
};
Sample samples[kMaxSamples];
int num_samples;

int Args(int format) { return format == 0 ? 0 : format == 2 ? 2 : 1; }
bool Same(const Frame& a, const Frame& b) {
  bool same = a.format == b.format;
  for (int i = 0; i < Args(a.format); i++) same = same & (a.args[i] == b.args[i]);
  return same;
}
bool SamePrefix(const Sample& a, const Sample& b, int n) {
  if (a.size < n || b.size < n) return false;
  bool same = a.id == b.id;
  for (int i = 0; i < n; i++) same = same & Same(a.frames[i], b.frames[i]);
  return same;
}
void SetLabel(const Frame& f, Label* l) {
  switch (Args(f.format)) {
    case 0:
      l->Set(kFormats[f.format]);
      break;
    case 1:
      l->Set(kFormats[f.format], f.args[0]);
      break;
    default:
      l->Set(kFormats[f.format], f.args[0], f.args[1]);
  }
}

void Draw() {
  num_samples = verif_cfg("samples");
  const int formats = verif_cfg("formats"), any_id = verif_cfg("ids");
  for (int i = 0; i < num_samples; i++) {
    Sample& s = samples[i];
    s.id = any_id ? static_cast<std::uint32_t>(verif_i32("id")) : 0;
    s.size = verif_range32("size", 1, verif_cfg("depth"));
    for (int j = 0; j < kMaxDepth; j++) {
      s.frames[j].format = verif_range32("format", 0, formats - 1);
      for (int a = 0; a < 2; a++) s.frames[j].args[a] = verif_i32("arg");
    }
  }
  for (int i = 0; i < num_samples; i++) {
    samples[i].size = verif_fork(samples[i].size);
    for (int j = 0; j < samples[i].size; j++) samples[i].frames[j].format = verif_fork(samples[i].frames[j].format);
  }
}

void Fill(const Sample& s, Stack* stack) {
  stack->id = s.id;
  stack->size = s.size;
  for (int j = 0; j < s.size; j++) SetLabel(s.frames[j], &stack->labels[j]);
}

std::vector<char>* Serialize() {
  auto* buf = new std::vector<char>;
  for (int i = 0; i < num_samples; i++) {
    Stack* stack = new Stack;
    Fill(samples[i], stack);
    const int old = buf->size(), n = GetBufferSize(*stack);
    buf->resize(old + n);
    CopyToBuffer(*stack, buf->data() + old);
    delete stack;
  }
  return buf;
}

int ChildrenWeight(const Node& n) {
  int w = 0;
  for (const auto& c : n.children) w += c->weight;
  return w;
}
bool IsOther(const Node& n) { return std::string(n.label.format()) == "[other]"; }

int CheckShape(const Node& n) {
  int count = 0;
  if (!n.children.empty()) verif_assert(ChildrenWeight(n) == n.weight, "children and remainder add up to the node");
  for (unsigned i = 0; i < n.children.size(); i++) {
    const Node& c = *n.children[i];
    verif_assert(c.weight > 0, "weights are positive");
    if (i) verif_assert(n.children[i - 1]->weight >= c.weight, "children are sorted by weight");
    if (IsOther(c)) {
      verif_assert(c.children.empty(), "the remainder is a leaf");
    } else {
      ++count;
    }
    count += CheckShape(c);
  }
  return count;
}

const Node* Child(const Node& n, const Frame& f) {
  Label l;
  SetLabel(f, &l);
  const Node* found = nullptr;
  int count = 0;
  for (const auto& c : n.children) {
    if (c->label == l) {
      found = c.get();
      ++count;
    }
  }
  verif_assert(count == 1, "one node for each label");
  return found;
}

bool SameLabel(const Label& a, const Label& b) { return a == b; }

// out: copy of in cut at the given depth
void CheckCollapsed(const Node& in, const Node& out, int depth) {
  verif_assert(in.weight == out.weight, "collapsing keeps weights");
  verif_assert(SameLabel(in.label, out.label), "collapsing keeps labels");
  if (depth <= 0) {
    verif_assert(out.children.empty(), "collapsed");
    return;
  }
  verif_assert(in.children.size() == out.children.size(), "collapsing keeps the nodes above");
  for (unsigned i = 0; i < in.children.size(); i++) CheckCollapsed(*in.children[i], *out.children[i], depth - 1);
}
void CheckCollapsedBelow(const Node& in, const Node& out, int depth, const std::string& format) {
  if (std::string(in.label.format()) == format) {
    CheckCollapsed(in, out, depth);
    return;
  }
  verif_assert(in.weight == out.weight, "collapsing keeps weights");
  verif_assert(in.children.size() == out.children.size(), "collapsing keeps the nodes above");
  for (unsigned i = 0; i < in.children.size(); i++) {
    CheckCollapsedBelow(*in.children[i], *out.children[i], depth, format);
  }
}
int WeightBelow(const Node& n, const std::string& format) {
  int w = std::string(n.label.format()) == format ? n.weight : 0;
  for (const auto& c : n.children) w += WeightBelow(*c, format);
  return w;
}
int Depth(const Node& n) {
  int d = 0;
  for (const auto& c : n.children) {
    const int e = 1 + Depth(*c);
    d = e > d ? e : d;
  }
  return d;
}
}  // namespace

extern "C" {
// A stack survives being written and read back.
void c19_serialize() {
  Draw();
  for (int i = 0; i < num_samples; i++) {
    Stack* stack = new Stack;
    Stack* back = new Stack;
    Fill(samples[i], stack);
    const int n = GetBufferSize(*stack);
    char* buf = static_cast<char*>(verif_alloc(n, "buffer"));
    CopyToBuffer(*stack, buf);
    ReadFromBuffer(buf, back);
    verif_assert(back->id == samples[i].id, "thread id read back");
    verif_assert(back->size == samples[i].size, "depth read back");
    verif_assert(GetBufferSize(*back) == n, "size read back");
    for (int j = 0; j < samples[i].size; j++) {
      Label want;
      SetLabel(samples[i].frames[j], &want);
      verif_assert(back->labels[j] == want, "label read back");
      // assignment and comparison of labels
      Label copy;
      copy = back->labels[j];
      verif_assert(copy == want, "label copied");
      for (int k = 0; k < num_samples; k++) {
        for (int l = 0; l < samples[k].size; l++) {
          Label other;
          SetLabel(samples[k].frames[l], &other);
          verif_assert((copy == other) == Same(samples[i].frames[j], samples[k].frames[l]), "labels differ or not");
        }
      }
    }
    verif_free(buf);
    delete stack;
    delete back;
  }
  verif_reach("end serialize");
}

void c19_tree() {
  Draw();
  {
    std::vector<char>* buf = Serialize();
    TreeView view;
    view.Populate(*buf);
    if (verif_cfg("twice")) view.Populate(*buf);
    delete buf;
    unsigned threads = 0;
    int nodes = 0;
    for (int i = 0; i < num_samples; i++) {
      const Sample& s = samples[i];
      bool first = true;
      for (int k = 0; k < i; k++) {
        if (samples[k].id == s.id) first = false;
      }
      threads += first;
      const auto& it = view.thread_roots().find(s.id);
      verif_assert(it != view.thread_roots().end(), "a root for each thread");
      const Node* node = it->second.get();
      if (first) nodes += CheckShape(*node);
      for (int depth = 0; depth <= s.size; depth++) {
        int want = 0;
        for (int k = 0; k < num_samples; k++) {
          if (SamePrefix(s, samples[k], depth)) {
            ++want;
          }
        }
        verif_assert(node->weight == want, "a node has the number of samples through it");
        if (depth < s.size) node = Child(*node, s.frames[depth]);
      }
    }
    verif_assert(view.thread_roots().size() == threads, "no other thread");
    // distinct prefixes
    int prefixes = 0;
    for (int i = 0; i < num_samples; i++) {
      for (int depth = 1; depth <= samples[i].size; depth++) {
        bool seen = false;
        for (int k = 0; k < i; k++) {
          if (SamePrefix(samples[i], samples[k], depth)) seen = true;
        }
        prefixes += !seen;
      }
    }
    verif_assert(nodes == prefixes, "no node without samples");
    verif_out("nodes", nodes);
    // queries and collapsing
    const std::string format = kFormats[verif_cfg("collapse_format")];
    const int depth = verif_cfg("collapse_depth");
    TreeView collapsed;
    ruy::profiler::CollapseNodesMatchingUnformatted(view, depth, format, &collapsed);
    verif_assert(collapsed.thread_roots().size() == threads, "collapsing keeps the threads");
    for (const auto& root : view.thread_roots()) {
      const auto& out = collapsed.thread_roots().find(root.first);
      verif_assert(out != collapsed.thread_roots().end(), "collapsing keeps the threads");
      CheckCollapsedBelow(*root.second, *out->second, depth, format);
      verif_assert(ruy::profiler::WeightBelowNodeMatchingUnformatted(*root.second, format) ==
                       WeightBelow(*root.second, format),
                   "weight of a format");
      verif_assert(ruy::profiler::DepthOfTreeBelow(*root.second) == Depth(*root.second), "depth of a tree");
      Node cut;
      ruy::profiler::CollapseNode(*root.second, depth, &cut);
      CheckCollapsed(*root.second, cut, depth);
    }
  }
  verif_assert(verif_heap_live() == 0, "no memory kept");
  verif_reach("end tree");
}
}
