// Stand-in for yaml-cpp: the node tree and its conversions, with values kept as they are instead of as text (printing and
// parsing numbers is yaml-cpp's business).  Semantics follow yaml-cpp 0.8: copies of a node are the same node, an assigned
// null or sequence turns into a map when indexed with a key that is no index, a const node does not grow when asked for a
// missing key.
#pragma once
#include <cstddef>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace YAML
{
struct NodeType
{
  enum value { Undefined, Null, Scalar, Sequence, Map };
};
struct EmitterStyle
{
  enum value { Default, Block, Flow };
};
class Exception : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
class InvalidNode : public Exception
{
public:
  InvalidNode() : Exception("invalid node") {}
};
class BadConversion : public Exception
{
public:
  BadConversion() : Exception("bad conversion") {}
};
template <typename T>
struct convert;
class Node
{
public:
  enum Kind { TEXT, BOOL, INT, REAL };
  struct Data
  {
    NodeType::value type = NodeType::Undefined;
    Kind kind = TEXT;
    std::string text;
    long long integer = 0;
    double real = 0;
    std::vector<Node> items;
    std::vector<std::pair<Node, Node>> entries;
  };
  struct Slot
  {
    std::shared_ptr<Data> d;
  };
  Node() : s_(fresh(NodeType::Null)) {}
  explicit Node(NodeType::value t) : s_(fresh(t)) {}
  Node(const Node&) = default;
  template <typename T>
  explicit Node(const T& v) : s_(encoded(v).s_)
  {
  }
  Node& operator=(const Node& o)
  {
    if (s_)
      s_->d = o.s_->d;
    s_ = o.s_;
    return *this;
  }
  template <typename T>
  Node& operator=(const T& v)
  {
    const Node n = encoded(v);
    s_->d = n.s_->d;
    return *this;
  }
  NodeType::value Type() const { return s_ ? s_->d->type : NodeType::Undefined; }
  bool IsDefined() const { return Type() != NodeType::Undefined; }
  bool IsNull() const { return Type() == NodeType::Null; }
  bool IsScalar() const { return Type() == NodeType::Scalar; }
  bool IsSequence() const { return Type() == NodeType::Sequence; }
  bool IsMap() const { return Type() == NodeType::Map; }
  explicit operator bool() const { return IsDefined(); }
  bool operator!() const { return !IsDefined(); }
  void SetStyle(EmitterStyle::value) {}
  std::size_t size() const
  {
    if (IsSequence())
      return s_->d->items.size();
    std::size_t n = 0;
    if (IsMap())
      for (const auto& e : s_->d->entries)
        n += e.second.IsDefined() ? 1 : 0;
    return n;
  }
  template <typename T>
  void push_back(const T& v)
  {
    if (Type() == NodeType::Null || Type() == NodeType::Undefined)
      s_->d->type = NodeType::Sequence;
    if (!IsSequence())
      throw Exception("push_back on a node that is no sequence");
    s_->d->items.push_back(node(v));
  }
  Node operator[](const std::string& key) { return at(text(key)); }
  Node operator[](const char* key) { return at(text(key)); }
  Node operator[](const Node& key) { return at(key); }
  const Node operator[](const std::string& key) const { return find(text(key)); }
  const Node operator[](const char* key) const { return find(text(key)); }
  Node operator[](int i) { return static_cast<const Node&>(*this)[i]; }
  const Node operator[](int i) const
  {
    if (IsSequence() && i >= 0 && static_cast<std::size_t>(i) < s_->d->items.size())
      return s_->d->items[static_cast<std::size_t>(i)];
    return invalid();
  }
  struct value_type;
  class iterator;
  using const_iterator = iterator;
  iterator begin() const;
  iterator end() const;
  template <typename T>
  T as() const
  {
    if (!s_)
      throw InvalidNode();
    T v{};
    if (!decode(v))
      throw BadConversion();
    return v;
  }
  template <typename T, typename S>
  T as(const S& fallback) const
  {
    T v{};
    if (!IsDefined() || !decode(v))
      return fallback;
    return v;
  }

private:
  std::shared_ptr<Slot> s_;
  static std::shared_ptr<Slot> fresh(NodeType::value t)
  {
    auto s = std::make_shared<Slot>();
    s->d = std::make_shared<Data>();
    s->d->type = t;
    return s;
  }
  static Node invalid()
  {
    Node n;
    n.s_.reset();
    return n;
  }
  static Node text(const std::string& t) { return encoded(t); }
  const Data* data() const { return IsMap() || IsSequence() ? s_->d.get() : nullptr; }
  static const Node& node(const Node& n) { return n; }
  template <typename T>
  static Node node(const T& v)
  {
    return encoded(v);
  }
  static Node scalar(Kind k)
  {
    Node n(NodeType::Scalar);
    n.s_->d->kind = k;
    return n;
  }
  static Node encoded(bool v)
  {
    Node n = scalar(BOOL);
    n.s_->d->integer = v ? 1 : 0;
    return n;
  }
  static Node encoded(int v) { return encoded(static_cast<long long>(v)); }
  static Node encoded(long v) { return encoded(static_cast<long long>(v)); }
  static Node encoded(unsigned v) { return encoded(static_cast<long long>(v)); }
  static Node encoded(unsigned long v) { return encoded(static_cast<long long>(v)); }
  static Node encoded(long long v)
  {
    Node n = scalar(INT);
    n.s_->d->integer = v;
    return n;
  }
  static Node encoded(double v)
  {
    Node n = scalar(REAL);
    n.s_->d->real = v;
    return n;
  }
  static Node encoded(const std::string& v)
  {
    Node n = scalar(TEXT);
    n.s_->d->text = v;
    return n;
  }
  static Node encoded(const char* v) { return encoded(std::string(v)); }
  template <typename T>
  static Node encoded(const T& v)
  {
    return convert<T>::encode(v);
  }
  bool is(Kind k) const { return IsScalar() && s_->d->kind == k; }
  bool decode(bool& v) const
  {
    if (!is(BOOL))
      return false;
    v = s_->d->integer != 0;
    return true;
  }
  template <typename T>
  bool decode_int(T& v) const
  {
    if (!is(INT))
      return false;
    v = static_cast<T>(s_->d->integer);
    return true;
  }
  bool decode(int& v) const { return decode_int(v); }
  bool decode(long& v) const { return decode_int(v); }
  bool decode(unsigned& v) const { return decode_int(v); }
  bool decode(unsigned long& v) const { return decode_int(v); }
  bool decode(double& v) const
  {
    if (is(INT))
      v = static_cast<double>(s_->d->integer);
    else if (is(REAL))
      v = s_->d->real;
    else
      return false;
    return true;
  }
  bool decode(std::string& v) const
  {
    if (!is(TEXT))
      return false;
    v = s_->d->text;
    return true;
  }
  template <typename T>
  bool decode(T& v) const
  {
    return convert<T>::decode(*this, v);
  }
  static bool same(const Node& a, const Node& b)
  {
    return a.s_ == b.s_ || (a.is(TEXT) && b.is(TEXT) && a.s_->d->text == b.s_->d->text);
  }
  Node at(const Node& key)
  {
    if (!s_)
      throw InvalidNode();
    if (IsScalar())
      throw Exception("operator[] call on a scalar");
    if (IsSequence())
      for (std::size_t i = 0; i < s_->d->items.size(); ++i)
        s_->d->entries.emplace_back(encoded(static_cast<long long>(i)), s_->d->items[i]);
    s_->d->items.clear();
    s_->d->type = NodeType::Map;
    for (auto& e : s_->d->entries)
      if (same(e.first, key))
        return e.second;
    s_->d->entries.emplace_back(key, Node(NodeType::Undefined));
    return s_->d->entries.back().second;
  }
  Node find(const Node& key) const
  {
    if (!s_)
      throw InvalidNode();
    if (IsScalar())
      throw Exception("operator[] call on a scalar");
    if (IsMap())
      for (const auto& e : s_->d->entries)
        if (same(e.first, key))
          return e.second;
    return invalid();
  }
};
struct Node::value_type : Node, std::pair<Node, Node>
{
  value_type(const Node& n) : Node(n), std::pair<Node, Node>(Node(), Node()) {}
  value_type(const Node& k, const Node& v) : Node(invalid()), std::pair<Node, Node>(k, v) {}
};
class Node::iterator
{
public:
  iterator(const Data* d, std::size_t i) : d_(d), i_(i) { skip(); }
  value_type operator*() const
  {
    return d_->type == NodeType::Map ? value_type(d_->entries[i_].first, d_->entries[i_].second) : value_type(d_->items[i_]);
  }
  std::unique_ptr<value_type> operator->() const { return std::make_unique<value_type>(**this); }
  iterator& operator++()
  {
    ++i_;
    skip();
    return *this;
  }
  iterator operator++(int)
  {
    iterator r = *this;
    ++*this;
    return r;
  }
  bool operator==(const iterator& o) const { return i_ == o.i_; }
  bool operator!=(const iterator& o) const { return i_ != o.i_; }

private:
  void skip()
  {
    if (d_ != nullptr && d_->type == NodeType::Map)
      while (i_ < d_->entries.size() && !d_->entries[i_].second.IsDefined())
        ++i_;
  }
  const Data* d_;
  std::size_t i_;
};
inline Node::iterator Node::begin() const { return iterator(data(), 0); }
inline Node::iterator Node::end() const
{
  const Data* d = data();
  return iterator(d, d == nullptr ? 0 : (d->type == NodeType::Map ? d->entries.size() : d->items.size()));
}
}  // namespace YAML
