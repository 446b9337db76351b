#pragma once
#include "symx_api.h"
#include <cstdlib>
#include <cstdio>
typedef prime_field::field_element fe;
static int g_msg = 0;
static inline std::string S(long k) { return std::to_string(k); }
static inline fe msg(const std::string &what) { fe x = symx::sym("m" + S(g_msg++) + "." + what); symx::out("msg." + what, x); return x; }
static inline void arg(const std::string &name, const fe &x) { symx::out("arg." + name, x); }
static inline void args(const std::string &name, const fe *x, int n) { for (int i = 0; i < n; ++i) symx::out("arg." + name + "." + S(i), x[i]); }
