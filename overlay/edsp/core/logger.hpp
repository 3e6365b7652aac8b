#ifdef VF_REAL_LOGGER
#include_next <edsp/core/logger.hpp>
#else
// Symbolic build only: log messages have no effect on the properties checked (see DESIGN.md).
#ifndef EDSP_LOGGER_HPP
#define EDSP_LOGGER_HPP
#include <edsp/types/string_view.hpp>
#include <edsp/meta/unused.hpp>
#include <type_traits>
#include <string>
namespace edsp { inline namespace core {
struct logger { enum levels { trace=0, debug, info, warning, error, critical, off };
 constexpr explicit logger(levels = trace) {} template<class T> constexpr logger& operator<<(const T&) { return *this; } };
inline logger& tab(logger& s) { return s; }
inline logger& endl(logger& s) { return s; }
inline logger& red(logger& s) { return s; }
inline logger& yellow(logger& s) { return s; }
inline logger& blue(logger& s) { return s; }
inline logger& cyan(logger& s) { return s; }
inline logger& white(logger& s) { return s; }
inline logger& magenta(logger& s) { return s; }
inline logger& green(logger& s) { return s; }
inline logger& grey(logger& s) { return s; }
inline logger& bold(logger& s) { return s; }
inline logger& endc(logger& s) { return s; }
inline logger& reset(logger& s) { return s; }
}}
#define eTrace() edsp::logger(edsp::logger::levels::trace)
#define eInfo() edsp::logger(edsp::logger::levels::info)
#define eDebug() edsp::logger(edsp::logger::levels::debug)
#define eWarning() edsp::logger(edsp::logger::levels::warning)
#define eCritical() edsp::logger(edsp::logger::levels::critical)
#define eError() edsp::logger(edsp::logger::levels::error)
#endif
#endif
