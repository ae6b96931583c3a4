// Declarations for the installed libre2.so.10 (20230301); the package with
// RE2's own headers is not installed.  Only what matching with typed captures
// needs is declared; the matching itself is the real library's.
#ifndef VERIF_SHIM_RE2_RE2_H_
#define VERIF_SHIM_RE2_RE2_H_
#include <cstddef>
#include <cstring>
#include <string>
#include "absl/strings/string_view.h"
namespace re2 {
class StringPiece {
 public:
  StringPiece() : data_(nullptr), size_(0) {}
  StringPiece(const char* s) : data_(s), size_(s ? std::strlen(s) : 0) {}
  StringPiece(const std::string& s) : data_(s.data()), size_(s.size()) {}
  StringPiece(absl::string_view s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const char* s, size_t n) : data_(s), size_(n) {}
  const char* data() const { return data_; }
  size_t size() const { return size_; }
  bool empty() const { return size_ == 0; }
  operator absl::string_view() const { return {data_, size_}; }
  std::string as_string() const { return std::string(data_, size_); }
  operator std::string() const { return as_string(); }
  void remove_prefix(size_t n) { data_ += n; size_ -= n; }
 private:
  const char* data_;
  size_t size_;
};
namespace re2_internal {
template <typename T> bool Parse(const char* str, size_t n, T* dest);
template <typename T> bool Parse(const char* str, size_t n, T* dest, int radix);
}  // namespace re2_internal
class RE2 {
 public:
  class Arg {
   public:
    typedef bool (*Parser)(const char* str, size_t n, void* dest);
    Arg() : Arg(nullptr) {}
    Arg(std::nullptr_t) : arg_(nullptr), parser_(Void) {}
    Arg(double* p) : arg_(p), parser_(Three<double>) {}
    Arg(float* p) : arg_(p), parser_(Three<float>) {}
    Arg(std::string* p) : arg_(p), parser_(Three<std::string>) {}
    Arg(StringPiece* p) : arg_(p), parser_(Three<StringPiece>) {}
    Arg(absl::string_view* p) : arg_(p), parser_(View) {}
    Arg(int* p) : arg_(p), parser_(Four<int>) {}
    Arg(long* p) : arg_(p), parser_(Four<long>) {}
    Arg(unsigned* p) : arg_(p), parser_(Four<unsigned>) {}
    bool Parse(const char* s, size_t n) const { return (*parser_)(s, n, arg_); }
   private:
    static bool Void(const char*, size_t, void*) { return true; }
    static bool View(const char* s, size_t n, void* d) {
      if (d) *static_cast<absl::string_view*>(d) = absl::string_view(s, n);
      return true;
    }
    template <class T> static bool Three(const char* s, size_t n, void* d) {
      return re2_internal::Parse<T>(s, n, static_cast<T*>(d));
    }
    template <class T> static bool Four(const char* s, size_t n, void* d) {
      return re2_internal::Parse<T>(s, n, static_cast<T*>(d), 10);
    }
    void* arg_;
    Parser parser_;
  };
  RE2(const char* pattern);
  RE2(const std::string& pattern);
  ~RE2();
  static bool FullMatchN(const StringPiece& text, const RE2& re,
                         const Arg* const args[], int n);
  static bool PartialMatchN(const StringPiece& text, const RE2& re,
                            const Arg* const args[], int n);
  static bool ConsumeN(StringPiece* input, const RE2& re,
                       const Arg* const args[], int n);
  static bool FindAndConsumeN(StringPiece* input, const RE2& re,
                              const Arg* const args[], int n);
  template <typename... A>
  static bool FullMatch(const StringPiece& t, const RE2& re, A&&... a) {
    return Apply(FullMatchN, t, re, Arg(std::forward<A>(a))...);
  }
  template <typename... A>
  static bool PartialMatch(const StringPiece& t, const RE2& re, A&&... a) {
    return Apply(PartialMatchN, t, re, Arg(std::forward<A>(a))...);
  }
  template <typename... A>
  static bool Consume(StringPiece* t, const RE2& re, A&&... a) {
    return Apply(ConsumeN, t, re, Arg(std::forward<A>(a))...);
  }
  template <typename... A>
  static bool FindAndConsume(StringPiece* t, const RE2& re, A&&... a) {
    return Apply(FindAndConsumeN, t, re, Arg(std::forward<A>(a))...);
  }
  static bool Replace(std::string* str, const RE2& re, const StringPiece& rewrite);
  static int GlobalReplace(std::string* str, const RE2& re, const StringPiece& rewrite);
  static bool Extract(const StringPiece& text, const RE2& re, const StringPiece& rewrite, std::string* out);
  static std::string QuoteMeta(const StringPiece& unquoted);
 private:
  template <typename F, typename SP, typename... A>
  static bool Apply(F f, SP&& t, const RE2& re, const A&... a) {
    const Arg* const args[] = {&a..., nullptr};
    return f(t, re, args, sizeof...(a));
  }
  alignas(16) char storage_[1024];  // more than sizeof the library's RE2
};
class LazyRE2 {
 public:
  RE2& operator*() const { return *get(); }
  RE2* operator->() const { return get(); }
  RE2* get() const {
    if (!ptr_) ptr_ = new RE2(pattern_);
    return ptr_;
  }
  const char* pattern_;
  mutable RE2* ptr_;
};
}  // namespace re2
using re2::RE2;
using re2::LazyRE2;
#endif
