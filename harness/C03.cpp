// C03: limits of VariableLengthArray.
#include "vla_machine.hpp"

template <typename T>
static void go(pbt::Case& c)
{
    vm::Focus f;
    f.limits = true;
    switch (c.below(3))
    {
    case 0:
        return vm::run<T, 0>(c, f);
    case 1:
        return vm::run<T, 7>(c, f);
    default:
        return vm::run<T, 1>(c, f);
    }
}
static void t_int(pbt::Case& c) { go<int>(c); }
static void t_bits(pbt::Case& c) { go<bool>(c); }
static void t_full(pbt::Case& c) { go<trk::Elem<trk::Full>>(c); }
PBT_TARGET(limit_int, t_int, 4000, 100000);
PBT_TARGET(limit_bool, t_bits, 4000, 100000);
PBT_TARGET(limit_tracked, t_full, 2000, 60000);
