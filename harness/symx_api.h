#pragma once
#include <string>
#include "linear_gkr/prime_field.h"
namespace symx {
  prime_field::field_element sym(const std::string &name);
  void out(const std::string &name, const prime_field::field_element &x);
  void note(const std::string &text);
  void finish(const std::string &verdict);
}
