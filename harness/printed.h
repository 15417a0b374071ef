#pragma once
// Text that the code under test prints or writes, kept for the harness. Numbers in it are not turned into digits:
// number n becomes the mark <n> and its value is remembered, so that a symbolic value stays one.
// Included before everything else, so that printf and the like of the code under test arrive here.
#include <cstdarg>
#include <cstdio>
#include <map>
#include <string>
#include <vector>
int hu_printf(const char* format, ...);
int hu_fprintf(std::FILE* f, const char* format, ...);
std::FILE* hu_fopen(const char* path, const char* mode);
int hu_fclose(std::FILE* f);
int hu_fflush(std::FILE* f);
namespace std
{
using ::hu_fclose;
using ::hu_fflush;
using ::hu_fopen;
using ::hu_fprintf;
using ::hu_printf;
}  // namespace std
// used by the standard library's own headers under these names
#include <ext/string_conversions.h>
#include <fstream>
#include <iostream>
#include <locale>
#include <sstream>
/** a file that the code under test writes by a stream: kept as text under its path */
extern std::map<std::string, std::string>& hu_texts();
namespace std
{
class hu_ofstream : public std::ostringstream
{
public:
  hu_ofstream() = default;
  explicit hu_ofstream(const std::string& path, std::ios_base::openmode mode = std::ios_base::out) { open(path, mode); }
  hu_ofstream(const hu_ofstream&) = delete;
  hu_ofstream& operator=(const hu_ofstream&) = delete;
  ~hu_ofstream() override { close(); }
  void open(const std::string& path, std::ios_base::openmode mode = std::ios_base::out)
  {
    path_ = path;
    open_ = true;
    if ((mode & std::ios_base::app) == 0)
      hu_texts()[path].clear();
  }
  bool is_open() const { return open_; }
  void close()
  {
    if (open_)
      hu_texts()[path_] += str();
    str("");
    open_ = false;
  }

private:
  std::string path_;
  bool open_{ false };
};
}  // namespace std
#define ofstream hu_ofstream
#define printf hu_printf
#define fprintf hu_fprintf
#define fopen hu_fopen
#define fclose hu_fclose
#define fflush hu_fflush
