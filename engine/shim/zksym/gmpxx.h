#pragma once
#include "gmp.h"
