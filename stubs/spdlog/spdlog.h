// Stand-in for spdlog while the code is executed symbolically: messages are dropped.
#pragma once
namespace spdlog {
template <typename... A> void error(A const &...) {}
template <typename... A> void info(A const &...) {}
template <typename... A> void warn(A const &...) {}
template <typename... A> void debug(A const &...) {}
template <typename... A> void trace(A const &...) {}
template <typename... A> void critical(A const &...) {}
} // namespace spdlog
