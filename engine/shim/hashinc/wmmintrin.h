#include "immintrin.h"
