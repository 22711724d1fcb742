// The decoder's own copy of the vocoder tables (so that a changed table in the library is noticed).
#pragma once
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wmissing-braces"
#pragma GCC diagnostic ignored "-Wunused-const-variable"
namespace reft {
#include "t_ambe3600x2400_const.h"
#include "t_ambe3600x2450_const.h"
#include "t_imbe7200x4400_const.h"
#include "t_windows.h"
}
#pragma GCC diagnostic pop
