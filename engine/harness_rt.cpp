// part of the harness side: virtual files for the symbolic run
#include "symx.h"
#include "symx_io.h"
void symFile(const char* name, const std::string& c) { *symx::vfile(name, true) = c; }
std::string symRead(const char* name, bool* ok) { std::string* s = symx::vfile(name, false); if (ok) *ok = s != nullptr; return s ? *s : std::string(); }
