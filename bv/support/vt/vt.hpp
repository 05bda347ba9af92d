// Instrumentation for generated workloads: an in-process event log. Lives behind -isystem so that binder never binds it.
#pragma once
#include <cstdio>
#include <memory>
#include <string>
#include <type_traits>
namespace vt {
void put(std::string const &line); // vt_support.cpp
inline std::string r(bool v) { return v ? "true" : "false"; }
inline std::string r(double v) { char b[64]; std::snprintf(b, sizeof b, "%.17g", v); return b; }
inline std::string r(float v) { return r(static_cast<double>(v)); }
inline std::string r(std::string const &v) { return "'" + v + "'"; }
inline std::string r(char const *v) { return v ? "'" + std::string(v) + "'" : "null"; }
template <typename T, typename std::enable_if<std::is_integral<T>::value and !std::is_same<T, bool>::value, int>::type = 0> std::string r(T v) { return std::to_string(v); }
template <typename T, typename std::enable_if<std::is_enum<T>::value, int>::type = 0> std::string r(T v) { return "e" + std::to_string(static_cast<typename std::underlying_type<T>::type>(v)); }
inline std::string join() { return ""; }
template <typename T> std::string join(T const &v) { return r(v); }
template <typename T, typename... A> std::string join(T const &v, A const &...a) { return r(v) + "," + join(a...); }
template <typename... A> void ev(char const *id, A const &...a) { put(std::string(id) + "(" + join(a...) + ")"); }
} // namespace vt
