// Shim of the protobuf runtime for the solver build: messages are plain field
// stores; serialization is an injective fixed-width encoding (not the wire format).
#pragma once
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
namespace google {
namespace protobuf {
typedef int32_t int32; typedef int64_t int64; typedef uint32_t uint32; typedef uint64_t uint64;
static const int32_t kint32max = 0x7FFFFFFF; static const int32_t kint32min = -kint32max - 1; static const int64_t kint64max = 0x7FFFFFFFFFFFFFFFll; static const int64_t kint64min = -kint64max - 1;
class Message;
namespace symx_wire { struct In { const std::string* s; size_t p; }; }
class Message {
 public:
  virtual ~Message() {}
  virtual void Clear() = 0;
  virtual Message* New() const = 0;
  virtual void CopyFrom(const Message&) = 0;
  virtual void SerializeTo(std::string& o) const = 0;
  virtual bool ParseAt(symx_wire::In& i) = 0;
  bool SerializeToString(std::string* o) const { o->clear(); SerializeTo(*o); return true; }
  std::string SerializeAsString() const { std::string o; SerializeTo(o); return o; }
  bool ParseFromString(const std::string& s) { Clear(); symx_wire::In i{&s, 0}; return ParseAt(i) && i.p == s.size(); }
  std::string DebugString() const { return ""; } std::string GetTypeName() const { return "message"; } std::string ShortDebugString() const { return ""; }
  size_t ByteSizeLong() const { return SerializeAsString().size(); }
};
typedef Message MessageLite;
template <typename T> class RepeatedField {
 public:
  std::vector<typename std::conditional<std::is_same<T, bool>::value, char, T>::type> v;
  typedef decltype(v.begin()) iterator; typedef decltype(v.cbegin()) const_iterator;
  RepeatedField() {}
  template <typename I> RepeatedField(I a, I b) { for (; a != b; ++a) v.push_back(*a); }
  int size() const { return v.size(); } bool empty() const { return v.empty(); } T Get(int i) const { return v[i]; } T operator[](int i) const { return v[i]; } void Set(int i, T x) { v[i] = x; } void Add(T x) { v.push_back(x); } void Clear() { v.clear(); } void Reserve(int n) { v.reserve(n); }
  template <typename I> void Add(I a, I b) { for (; a != b; ++a) v.push_back(*a); }
  void Resize(int n, T x) { v.resize(n, x); } auto* data() const { return v.data(); } auto* mutable_data() { return v.data(); }
  auto begin() const { return v.begin(); } auto end() const { return v.end(); } auto begin() { return v.begin(); } auto end() { return v.end(); } auto cbegin() const { return v.begin(); } auto cend() const { return v.end(); }
  void MergeFrom(const RepeatedField& o) { v.insert(v.end(), o.v.begin(), o.v.end()); } void CopyFrom(const RepeatedField& o) { v = o.v; } void Swap(RepeatedField* o) { v.swap(o->v); } void RemoveLast() { v.pop_back(); }
};
template <typename T> class RepeatedPtrField {
 public:
  std::vector<T*> v;
  RepeatedPtrField() {}
  RepeatedPtrField(const RepeatedPtrField& o) { MergeFrom(o); }
  template <typename I> RepeatedPtrField(I a, I b) { for (; a != b; ++a) v.push_back(new T(*a)); }
  RepeatedPtrField& operator=(const RepeatedPtrField& o) { if (this != &o) { Clear(); MergeFrom(o); } return *this; }
  ~RepeatedPtrField() { Clear(); }
  template <typename Q, typename R> struct It {
    using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = long; using pointer = R*; using reference = R&;
    Q p; R& operator*() const { return **p; } R* operator->() const { return *p; } It& operator++() { ++p; return *this; } It operator++(int) { It t = *this; ++p; return t; } It& operator--() { --p; return *this; } It operator+(long n) const { return It{p + n}; } It operator-(long n) const { return It{p - n}; } It& operator+=(long n) { p += n; return *this; } long operator-(const It& o) const { return p - o.p; } R& operator[](long n) const { return *p[n]; }
    bool operator==(const It& o) const { return p == o.p; } bool operator!=(const It& o) const { return p != o.p; } bool operator<(const It& o) const { return p < o.p; }
  };
  typedef It<T**, T> iterator; typedef It<T* const*, const T> const_iterator;
  int size() const { return v.size(); } bool empty() const { return v.empty(); }
  const T& Get(int i) const { return *v[i]; } const T& operator[](int i) const { return *v[i]; } T& operator[](int i) { return *v[i]; } T* Mutable(int i) { return v[i]; } T* Add() { v.push_back(new T); return v.back(); } const T& at(int i) const { return *v.at(i); }
  void Clear() { for (T* p : v) delete p; v.clear(); } void Reserve(int) {} void RemoveLast() { delete v.back(); v.pop_back(); } void AddAllocated(T* p) { v.push_back(p); }
  void DeleteSubrange(int s, int n) { for (int i = s; i < s + n; i++) delete v[i]; v.erase(v.begin() + s, v.begin() + s + n); }
  iterator begin() { return {v.data()}; } iterator end() { return {v.data() + v.size()}; } const_iterator begin() const { return {v.data()}; } const_iterator end() const { return {v.data() + v.size()}; } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  void MergeFrom(const RepeatedPtrField& o) { for (T* p : o.v) v.push_back(new T(*p)); } void CopyFrom(const RepeatedPtrField& o) { *this = o; } void Swap(RepeatedPtrField* o) { v.swap(o->v); }
};
namespace symx_wire {
template <typename T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type S(std::string& o, const T& v) { o.append((const char*)&v, sizeof v); }
inline void S(std::string& o, const std::string& v) { S(o, (uint64_t)v.size()); o += v; }
inline void S(std::string& o, const Message& m) { m.SerializeTo(o); }
template <typename T> void S(std::string& o, const RepeatedField<T>& r) { S(o, (uint64_t)r.size()); for (auto& x : r.v) S(o, x); }
template <typename T> void S(std::string& o, const RepeatedPtrField<T>& r) { S(o, (uint64_t)r.size()); for (auto* x : r.v) S(o, *x); }
template <typename T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value, bool>::type P(In& i, T* v) { if (i.p + sizeof(T) > i.s->size()) return false; memcpy(v, i.s->data() + i.p, sizeof(T)); i.p += sizeof(T); return true; }
inline bool P(In& i, std::string* v) { uint64_t n; if (!P(i, &n) || n > i.s->size() - i.p) return false; v->assign(*i.s, i.p, n); i.p += n; return true; }
inline bool P(In& i, Message* m) { return m->ParseAt(i); }
template <typename T> bool P(In& i, RepeatedField<T>* r) { uint64_t n; if (!P(i, &n) || n > i.s->size() - i.p) return false; r->v.resize(n); for (auto& x : r->v) if (!P(i, &x)) return false; return true; }
template <typename T> bool P(In& i, RepeatedPtrField<T>* r) { uint64_t n; if (!P(i, &n) || n > i.s->size() - i.p) return false; for (uint64_t k = 0; k < n; k++) if (!P(i, r->Add())) return false; return true; }
}  // namespace symx_wire
}  // namespace protobuf
}  // namespace google
