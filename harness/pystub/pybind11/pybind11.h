// Stand-in for pybind11: registers the functions, arguments and enumerators of a module so
// that a driver can call them the way Python would (by position, by keyword, with defaults).
#pragma once
#include <any>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
namespace pybind11 {
// A Python value. Numbers (bool, int, enumerators) are kept as such, the rest by type.
struct object {
  enum Kind { NONE, INT, REAL, OTHER } kind = NONE;
  long i = 0;
  double d = 0;
  std::shared_ptr<std::any> a;
  object() = default;
  object(std::nullopt_t) {}
  object(std::nullptr_t) {}
  object(const char *s) : kind(OTHER), a(std::make_shared<std::any>(std::string(s))) {}
  template<class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, object>>>
  object(const T &v) {
    if constexpr (std::is_enum_v<T>) { kind = INT; i = static_cast<long>(v); }
    else if constexpr (std::is_integral_v<T>) { kind = INT; i = v; }
    else if constexpr (std::is_floating_point_v<T>) { kind = REAL; d = v; }
    else { kind = OTHER; a = std::make_shared<std::any>(v); }
  }
};
using str = std::string;
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
template<class T> struct conv {
  static T get(const object &o) {
    if constexpr (std::is_enum_v<T> || std::is_integral_v<T>) {
      if (o.kind != object::INT) throw type_error("integer expected");
      return static_cast<T>(o.i);
    } else if constexpr (std::is_floating_point_v<T>) {
      if (o.kind == object::INT) return static_cast<T>(o.i);
      if (o.kind != object::REAL) throw type_error("number expected");
      return static_cast<T>(o.d);
    } else {
      if (o.kind != object::OTHER) throw type_error("container expected");
      auto *p = std::any_cast<T>(o.a.get());
      if (!p) throw type_error("another container expected");
      return *p;
    }
  }
};
template<class T> struct conv<std::optional<T>> {
  static std::optional<T> get(const object &o) {
    if (o.kind == object::NONE) return std::nullopt;
    return conv<T>::get(o);
  }
};
struct arg {
  std::string name;
  bool has = false;
  object val;
  explicit arg(const char *n) : name(n) {}
  arg &noconvert(bool = true) { return *this; }
  arg &none(bool = true) { return *this; }
  template<class T> arg operator=(T &&v) const { arg r(name.c_str()); r.has = true; r.val = object(v); return r; }
};
using arg_v = arg;
namespace literals {
inline arg operator""_a(const char *n, size_t) { return arg(n); }
}
using namespace literals;
struct kw_only {};
struct pos_only {};
struct name { std::string v; explicit name(const char *s) : v(s) {} };
struct doc { std::string v; explicit doc(const char *s) : v(s) {} };
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template<class... G> struct call_guard {};
struct gil_scoped_release {};
template<class... T> std::tuple<std::decay_t<T>...> make_tuple(T &&...t) { return std::tuple<std::decay_t<T>...>(std::forward<T>(t)...); }

using kwargs = std::map<std::string, object>;
struct function_record {
  std::vector<arg> args;
  size_t arity = 0;
  std::function<std::any(const std::vector<object> &)> call;
  // positional values first, then keywords, then defaults
  std::any operator()(const std::vector<object> &pos, const kwargs &kw) const {
    if (args.size() != arity) throw type_error("arguments and names differ in number");
    if (pos.size() > arity) throw type_error("too many arguments");
    std::vector<object> v = pos;
    size_t used = 0;
    for (size_t k = 0; k < arity; ++k) {
      auto it = kw.find(args[k].name);
      if (k < pos.size()) { if (it != kw.end()) throw type_error("argument given twice"); continue; }
      if (it != kw.end()) { v.push_back(it->second); ++used; }
      else if (args[k].has) v.push_back(args[k].val);
      else throw type_error("missing argument");
    }
    if (used != kw.size()) throw type_error("unknown keyword");
    return call(v);
  }
};
struct module_ {
  std::map<std::string, function_record> functions;
  std::map<std::string, std::map<std::string, long>> enums;
  std::map<std::string, object> attrs;
  std::string docs;
  std::string &doc() { return docs; }
  object &attr(const char *n) { return attrs[n]; }
  static void extra(function_record &r, const arg &a) { r.args.push_back(a); }
  template<class T> static void extra(function_record &, const T &) {}
  template<class R, class... A, class... E> module_ &reg(const char *n, std::function<R(A...)> f, const E &...e) {
    function_record r;
    r.arity = sizeof...(A);
    (extra(r, e), ...);
    r.call = [f](const std::vector<object> &v) { return invoke<R, A...>(f, v, std::index_sequence_for<A...>()); };
    functions[n] = std::move(r);
    return *this;
  }
  template<class R, class... A, size_t... I>
  static std::any invoke(const std::function<R(A...)> &f, const std::vector<object> &v, std::index_sequence<I...>) {
    std::tuple<std::decay_t<A>...> t{conv<std::decay_t<A>>::get(v[I])...};
    if constexpr (std::is_void_v<R>) { f(static_cast<A>(std::get<I>(t))...); return {}; }
    else return std::any(std::decay_t<R>(f(static_cast<A>(std::get<I>(t))...)));
  }
  template<class F, class... E> module_ &def(const char *n, F f, const E &...e) { return reg(n, std::function(f), e...); }
};
using module = module_;
template<class E> struct enum_ {
  std::map<std::string, long> &m;
  module_ &mod;
  std::string nm;
  template<class... X> enum_(module_ &h, const char *n, const X &...) : m(h.enums[n]), mod(h), nm(n) {}
  enum_ &value(const char *n, E v, const char * = nullptr) { m[n] = static_cast<long>(v); return *this; }
  enum_ &export_values() { for (auto &p : m) mod.attrs[p.first] = object(p.second); return *this; }
};
}
#define PYBIND11_MODULE(nm, var, ...) static void pystub_init_##nm(pybind11::module_ &var)
