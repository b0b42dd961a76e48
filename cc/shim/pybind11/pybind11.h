// The little of pybind11 that a class with methods needs. Calls hold the GIL.
#ifndef SHIM_PYBIND11_H_
#define SHIM_PYBIND11_H_
#include <Python.h>
#include <any>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "py/arolla/py_utils/py_utils.h"
namespace pybind11 {
// A Python exception is pending.
struct error_already_set : std::exception {};
struct gil_scoped_release : arolla::python::ReleasePyGIL {};
struct gil_scoped_acquire : arolla::python::AcquirePyGIL {};
template <typename... G>
struct call_guard {};
struct arg {
  explicit arg(const char*) {}
};
struct kw_only {};
template <typename... A>
struct InitTag {};
template <typename... A>
InitTag<A...> init() { return {}; }

using Args = std::vector<std::any>;
struct ClassInfo {
  std::function<void*(const Args&)> ctor;
  std::function<void(void*)> dtor;
  std::map<std::string, std::function<std::any(void*, const Args&)>> methods;
};
struct module_ {
  std::map<std::string, ClassInfo>* classes;
  const char* doc() const { return ""; }
};

template <typename T> struct IsStatusOr : std::false_type {};
template <typename T> struct IsStatusOr<absl::StatusOr<T>> : std::true_type {};
template <typename R>
std::any Result(R&& r) {
  using D = std::decay_t<R>;
  if constexpr (std::is_same_v<D, absl::Status>) {
    if (!r.ok()) {
      arolla::python::SetPyErrFromStatus(r);
      throw error_already_set();
    }
    return {};
  } else if constexpr (IsStatusOr<D>::value) {
    if (!r.ok()) {
      arolla::python::SetPyErrFromStatus(r.status());
      throw error_already_set();
    }
    return std::any(*std::forward<R>(r));
  } else {
    return std::any(std::forward<R>(r));
  }
}
template <typename F> struct Sig : Sig<decltype(&F::operator())> {};
template <typename C, typename R, typename... A> struct Sig<R (C::*)(A...) const> { using Fn = R(A...); };
template <typename C, typename R, typename... A> struct Sig<R (C::*)(A...)> { using Fn = R(A...); };
template <typename R, typename... A> struct Sig<R (*)(A...)> { using Fn = R(A...); };

template <bool> struct Maybe { char unused = 0; };
template <> struct Maybe<true> : gil_scoped_release {};

template <typename T>
class class_ {
 public:
  template <typename... X>
  class_(module_& m, const char* name, const X&...) : c_((*m.classes)[name]) {
    c_.dtor = [](void* p) { delete static_cast<T*>(p); };
  }
  template <typename... A, typename... X>
  class_& def(InitTag<A...>, const X&...) {
    c_.ctor = [](const Args& a) -> void* { return Make<A...>(a, std::index_sequence_for<A...>()); };
    return *this;
  }
  template <typename R, typename... A, typename... X>
  class_& def(const char* name, R (T::*f)(A...), const X&... x) {
    return Add(name, [f](T& t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); }, (R(*)(T&, A...)) nullptr, x...);
  }
  template <typename R, typename... A, typename... X>
  class_& def(const char* name, R (T::*f)(A...) const, const X&... x) {
    return Add(name, [f](T& t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); }, (R(*)(T&, A...)) nullptr, x...);
  }
  template <typename F, typename... X>
  class_& def(const char* name, F f, const X&... x) {
    return Add(name, f, (typename Sig<F>::Fn*)nullptr, x...);
  }
 private:
  template <typename... A, size_t... I>
  static T* Make(const Args& a, std::index_sequence<I...>) { return new T(std::any_cast<A>(a[I])...); }
  template <typename G> struct GuardOf { using Type = std::tuple<>; };
  template <typename... G> struct GuardOf<call_guard<G...>> { using Type = std::tuple<G...>; };
  template <typename F, typename R, typename Self, typename... A, typename... X>
  class_& Add(const char* name, F f, R (*)(Self, A...), const X&...) {
    using Guards = decltype(std::tuple_cat(std::declval<typename GuardOf<X>::Type>()...));
    c_.methods[name] = [f](void* self, const Args& a) mutable {
      return Invoke<R, Guards, A...>(f, *static_cast<T*>(self), a, std::index_sequence_for<A...>());
    };
    return *this;
  }
  template <typename R, typename Guards, typename... A, typename F, size_t... I>
  static std::any Invoke(F& f, T& self, const Args& a, std::index_sequence<I...>) {
    std::tuple<std::decay_t<A>...> args(std::any_cast<std::decay_t<A>>(a[I])...);
    constexpr bool kRelease = std::tuple_size_v<Guards> != 0;
    if constexpr (std::is_void_v<R>) {
      {
        Maybe<kRelease> g;
        f(self, std::forward<A>(std::get<I>(args))...);
      }
      return {};
    } else {
      auto r = [&] {
        Maybe<kRelease> g;
        return f(self, std::forward<A>(std::get<I>(args))...);
      }();
      return Result(std::move(r));
    }
  }
  ClassInfo& c_;
};
inline std::map<std::string, void (*)(module_&)> shim_modules;
}  // namespace pybind11
#define PYBIND11_MODULE(name, m)                                              \
  static void ShimModule_##name(::pybind11::module_& m);                      \
  static const bool shim_module_##name =                                      \
      (::pybind11::shim_modules[#name] = ShimModule_##name, true);            \
  static void ShimModule_##name([[maybe_unused]] ::pybind11::module_& m)
#endif
