// Declarations that let clang parse the bindings; never linked, never run.
#pragma once
#include <cstddef>
#include <string>
#include <tuple>
#include <utility>
namespace nanobind {
struct object {
  template <typename T> object &operator=(const T &) { return *this; }
  template <typename T> object operator[](const T &) const { return object(); }
  std::size_t size() const;
};
struct tuple : object {};
struct list : object {};
struct dict : object {};
struct str : object {};
struct arg_v {};
struct arg {
  explicit arg(const char *name);
  template <typename T> arg_v operator=(T &&value) const { return arg_v(); }
  arg &none(bool v = true);
  arg &noconvert(bool v = true);
};
template <typename... Args> struct init {};
template <typename... Args> struct call_guard {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};
struct rv_policy_t {};
enum class rv_policy { automatic, copy, move, reference, reference_internal, take_ownership };
template <typename... Args> object make_tuple(Args &&...args) { return object(); }
template <typename T> T cast(const object &o);
template <typename T> T cast(object &&o);
struct module_ : object {
  std::string &doc();
  object attr(const char *name);
  template <typename... Args> module_ &def(const char *name, Args &&...args) { return *this; }
};
template <typename T, typename... Bases> struct class_ : object {
  template <typename... Extra> class_(module_ &m, const char *name, Extra &&...extra);
  template <typename... Args, typename... Extra> class_ &def(init<Args...> i, const Extra &...extra) {
    auto make = [](Args... a) { return new T(a...); }; // instantiates the constructor
    (void)make;
    return *this;
  }
  template <typename F, typename... Extra> class_ &def(const char *name, F &&f, const Extra &...extra) { return *this; }
  template <typename F, typename... Extra> class_ &def_static(const char *name, F &&f, const Extra &...extra) { return *this; }
  template <typename F, typename... Extra> class_ &def_rw(const char *name, F &&f, const Extra &...extra) { return *this; }
  template <typename F, typename... Extra> class_ &def_ro(const char *name, F &&f, const Extra &...extra) { return *this; }
  template <typename F, typename G, typename... Extra> class_ &def_prop_rw(const char *name, F &&f, G &&g, const Extra &...extra) { return *this; }
  template <typename F, typename... Extra> class_ &def_prop_ro(const char *name, F &&f, const Extra &...extra) { return *this; }
};
template <typename T> struct enum_ : object {
  template <typename... Extra> enum_(module_ &m, const char *name, Extra &&...extra);
  enum_ &value(const char *name, T v);
  enum_ &export_values();
};
} // namespace nanobind
namespace nb = nanobind;
#define NB_MODULE(name, variable) void irspack_nanobind_init_##name(nanobind::module_ &variable)
