#pragma once
#include <string>
namespace FM { extern std::string error; extern long planned, executed, destroyed, cleanups; void reset(); int live();
extern void (*access_hook)(const void *p, unsigned long bytes, bool write); extern void (*plan_hook)(); }
