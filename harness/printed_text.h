#pragma once
// What printed.h kept, and how to read it.
#include "util.h"
#include <cstring>
#include <memory>
namespace hu
{
struct Printed
{
  std::vector<double> numbers;
  std::string out;                          // printf
  std::map<std::FILE*, std::string> files;  // fprintf
  std::map<std::string, std::FILE*> paths;  // fopen
  std::vector<std::FILE*> closed;
  std::map<std::string, std::string> texts;  // ofstream
  std::string mark(double v)
  {
    numbers.push_back(v);
    return "<" + std::to_string(numbers.size() - 1) + ">";
  }
};
inline Printed printed;
inline std::string format(const char* f, va_list a)
{
  std::string r;
  for (; *f != 0; ++f)
  {
    if (*f != '%')
    {
      r += *f;
      continue;
    }
    ++f;
    if (*f == '%')
    {
      r += '%';
      continue;
    }
    bool lng = false;
    for (; std::strchr("0123456789.-+ #lzh", *f) != nullptr; ++f)
      lng = lng || *f == 'l' || *f == 'z';
    if (*f == 's')
      r += va_arg(a, const char*);
    else if (*f == 'd' || *f == 'i')
      r += lng ? std::to_string(va_arg(a, long)) : std::to_string(va_arg(a, int));
    else if (*f == 'u')
      r += lng ? std::to_string(va_arg(a, unsigned long)) : std::to_string(va_arg(a, unsigned));
    else if (std::strchr("eEfFgG", *f) != nullptr)
      r += printed.mark(va_arg(a, double));
    else
      sym::fail("unknown conversion in a format");
  }
  return r;
}
/** doubles written to a stream */
struct Numbers : std::num_put<char>
{
  iter_type do_put(iter_type o, std::ios_base& s, char_type fill, double v) const override
  {
    const std::string m = printed.mark(v);
    const auto w = static_cast<std::size_t>(s.width(0));
    const std::string pad(w > m.size() ? w - m.size() : 0, fill);
    const bool left = (s.flags() & std::ios_base::adjustfield) == std::ios_base::left;
    for (char c : left ? m + pad : pad + m)
      *o++ = c;
    return o;
  }
};
/** std::cout, and every stream made meanwhile, with marks for the numbers */
struct Streams
{
  std::stringbuf buf;
  std::streambuf* old{ nullptr };
  std::ios state{ nullptr };
  Streams()
  {
    const std::locale l(std::locale::classic(), new Numbers);
    std::locale::global(l);
    state.copyfmt(std::cout);
    old = std::cout.rdbuf(&buf);
    std::cout.imbue(l);
  }
  ~Streams()
  {
    std::cout.rdbuf(old);
    std::cout.copyfmt(state);
    std::locale::global(std::locale::classic());
  }
};
inline std::vector<std::string> split(const std::string& s, const std::string& at)
{
  std::vector<std::string> r(1);
  for (char c : s)
    if (at.find(c) != std::string::npos)
      r.emplace_back();
    else
      r.back() += c;
  return r;
}
inline std::vector<std::string> words(const std::string& s)
{
  std::vector<std::string> r;
  for (const auto& w : split(s, " \t\r\n"))
    if (!w.empty())
      r.push_back(w);
  return r;
}
inline std::string trim(const std::string& s)
{
  const auto w = words(s);
  std::string r;
  for (const auto& x : w)
    r += (r.empty() ? "" : " ") + x;
  return r;
}
inline bool marked(const std::string& s) { return s.size() > 2 && s[0] == '<' && s.back() == '>' && s.find_first_not_of("0123456789", 1) == s.size() - 1; }
inline double number(const std::string& s) { return printed.numbers.at(std::stoul(s.substr(1))); }
/** the word is a number and that number is v */
inline void is(const std::string& word, double v, const char* what)
{
  sym::check(marked(word), what);
  if (marked(word))
    sym::check_eq(number(word), v, what);
}
}  // namespace hu
std::map<std::string, std::string>& hu_texts() { return hu::printed.texts; }
#undef ofstream
#undef printf
#undef fprintf
#undef fopen
#undef fclose
#undef fflush
int hu_printf(const char* f, ...)
{
  va_list a;
  va_start(a, f);
  hu::printed.out += hu::format(f, a);
  va_end(a);
  return 1;
}
int hu_fprintf(std::FILE* s, const char* f, ...)
{
  va_list a;
  va_start(a, f);
  hu::printed.files[s] += hu::format(f, a);
  va_end(a);
  return 1;
}
std::FILE* hu_fopen(const char* path, const char*)
{
  static char ids[64];
  static std::size_t n = 0;
  auto* f = reinterpret_cast<std::FILE*>(&ids[n++ % 64]);
  hu::printed.paths[path] = f;
  hu::printed.files[f].clear();
  return f;
}
int hu_fclose(std::FILE* f)
{
  hu::printed.closed.push_back(f);
  return 0;
}
int hu_fflush(std::FILE*) { return 0; }
