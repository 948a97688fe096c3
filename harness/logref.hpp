// Reference renderer of console log lines, written from the documentation.
#ifndef LOGREF_HPP_
#define LOGREF_HPP_
#include <time.h>
#include "mon.hpp"
#include "rcutils/logging.h"

namespace logref
{
struct Record
{
  bool has_location = true;
  std::string function, file, name, msg;
  size_t line = 0;
  int severity = 0;
  int64_t t = 0;
};

inline std::string digits(uint64_t v, size_t width)
{
  std::string d;
  while (d.size() < width || v) {d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10;}
  return d;
}
inline std::string nano(int64_t t)
{
  uint64_t v = t < 0 ? 0 - static_cast<uint64_t>(t) : static_cast<uint64_t>(t);
  return (t < 0 ? "-" : "") + digits(v, 19);
}
inline std::string seconds(int64_t t)
{
  std::string s = nano(t);
  return s.substr(0, s.size() - 9) + "." + s.substr(s.size() - 9);
}
inline std::string date(int64_t t)
{
  int64_t sec = t / 1000000000, ns = t % 1000000000;
  if (ns < 0) {ns += 1000000000; --sec;}
  time_t tt = sec;
  struct tm tm;
  if (!localtime_r(&tt, &tm)) {return "?";}
  return mon::fmt("%04d-%02d-%02d %02d:%02d:%02d.%03d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min,
           tm.tm_sec, static_cast<int>(ns / 1000000));
}
inline const char * severity_name(int s)
{
  switch (s) {
    case 0: return "UNSET";
    case 10: return "DEBUG";
    case 20: return "INFO";
    case 30: return "WARN";
    case 40: return "ERROR";
    case 50: return "FATAL";
  }
  return "?";
}
inline const char * color(int s)
{
  switch (s) {
    case 10: return "\033[32m";
    case 20: return "\033[0m";
    case 30: return "\033[33m";
    default: return "\033[31m";
  }
}

static const char DEFAULT_FORMAT[] = "[{severity}] [{time}] [{name}]: {message}";

// The format as configured by the environment variable: escapes become characters.
inline std::string unescape(std::string f)
{
  if (f.empty()) {f = DEFAULT_FORMAT;}
  if (f.size() > 2047) {f.resize(2047);}
  std::string o;
  for (size_t i = 0; i < f.size(); ) {
    if (f[i] != '\\') {o += f[i++]; continue;}
    if (f.compare(i, 4, "\\x1b") == 0) {o += '\x1b'; i += 4; continue;}
    char c = i + 1 < f.size() ? f[i + 1] : '\0';
    const char * p = c ? strchr("abnrt", c) : nullptr;
    if (p) {
      o += "\a\b\n\r\t"[p - "abnrt"];
      i += 2;
    } else {            // not a supported escape: both characters stay
      o += f[i++];
      if (i < f.size()) {o += f[i++];}
    }
  }
  return o;
}

inline bool expand(const std::string & token, const Record & r, std::string * out)
{
  if (token == "severity") {*out += severity_name(r.severity);} else if (token == "name") {
    *out += r.name;
  } else if (token == "message") {*out += r.msg;} else if (token == "function_name") {
    if (r.has_location) {*out += r.function;}
  } else if (token == "file_name") {
    if (r.has_location) {*out += r.file;}
  } else if (token == "line_number") {
    if (r.has_location) {*out += std::to_string(r.line).substr(0, 9);}
  } else if (token == "time") {*out += seconds(r.t);} else if (token == "date_time_with_ms") {
    *out += date(r.t);
  } else if (token == "time_as_nanoseconds") {*out += nano(r.t);} else {return false;}
  return true;
}

inline std::string render(const std::string & format, const Record & r)
{
  std::string f = unescape(format), o;
  for (size_t i = 0; i < f.size(); ) {
    if (f[i] == '{') {
      size_t e = f.find('}', i);
      if (e != std::string::npos && expand(f.substr(i + 1, e - i - 1), r, &o)) {i = e + 1; continue;}
    }
    o += f[i++];
  }
  return o;
}

// ---------------------------------------------------------------- generators
inline std::string gen_format(mon::Rng & g)
{
  static const std::vector<std::string> tok = {"{severity}", "{name}", "{message}", "{function_name}", "{file_name}", "{time}",
    "{date_time_with_ms}", "{time_as_nanoseconds}", "{line_number}"};
  static const std::vector<std::string> odd = {"{", "}", "{}", "{{", "}}", "{ name}", "{Name}", "{names}", "{nam", "{mess{message}",
    "{unknown}", "{time_as_}", "{line_number", "{message }", "\\", "\\\\", "\\q", "\\x", "\\x1", "\\x1c", "\\{", "\\'", "%s", "%d", "%%", "%n"};
  static const std::vector<std::string> esc = {"\\a", "\\b", "\\n", "\\r", "\\t", "\\x1b", "\\x1b[31m", "\\n\\n", "\\t\\x1b\\a"};
  std::string f;
  switch (g.below(12)) {
    case 0: f = ""; break;
    case 1: f = DEFAULT_FORMAT; break;
    case 2:            // many parts
      for (uint64_t n = g.below(1100); n > 0; --n) {f += g.chance(1, 30) ? "{" : "{x";}
      break;
    case 3:
      for (uint64_t n = g.range(1000, 2100); n > 0; --n) {f += g.chance(1, 50) ? 'x' : '{';}
      break;
    case 4:
      for (uint64_t n = g.range(100, 350); n > 0; --n) {f += g.chance(1, 20) ? "{name}" : g.chance(1, 2) ? "{time}" : "{name}|";}
      break;
    default: {
        uint64_t n = g.chance(1, 10) ? g.range(20, 120) : g.below(9);
        while (n--) {
          switch (g.below(5)) {
            case 0: case 1: f += g.pick(tok); break;
            case 2: f += g.pick(odd); break;
            case 3: f += g.pick(esc); break;
            default: f += g.str(g.below(g.chance(1, 10) ? 300 : 9), "abc []:x1nrt"); break;
          }
        }
      }
  }
  // around the documented limit
  if (g.chance(1, 12)) {
    size_t want = g.range(2040, 2056);
    while (f.size() < want) {f += g.chance(1, 3) ? g.pick(tok) : g.chance(1, 3) ? g.pick(esc) : g.str(g.below(90), "abc ");}
  }
  // what happens to an escape or token cut by the limit is not specified: do not cut one
  if (f.size() > 2047) {
    for (size_t i = 2040; i < 2052 && i < f.size(); ++i) {if (f[i] == '\\') {f[i] = '/';}}
  }
  return f;
}

inline std::string gen_text(mon::Rng & g, bool name = false)
{
  static const size_t edge[] = {0, 1, 900, 1000, 1015, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1100, 2047, 2048, 2049, 4096, 9000};
  size_t n = g.chance(1, 4) ? edge[g.below(sizeof(edge) / sizeof(edge[0]))] : g.below(30);
  if (g.chance(1, 6)) {n = g.range(1000, 1030);}
  (void)name;
  return g.chance(1, 5) ? g.cstr(n) : g.str(n, "abcd.{}%\\ sn");
}
}  // namespace logref
#endif  // LOGREF_HPP_
