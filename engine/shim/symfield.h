// Symbolic replacement of the prime-field layer: interface used by the harnesses.
#pragma once
#include <string>
#include "pf_abi.h"
namespace symx {
  prime_field::field_element sym(const std::string &name);     // fresh symbolic field element
  void out(const std::string &name, const prime_field::field_element &x);   // record a named observation
  void note(const std::string &text);                           // free-form trace line
  void finish(const std::string &verdict);                      // write the trace
  // set from outside: names used for prime_field::random()
  extern std::string random_prefix;
}
