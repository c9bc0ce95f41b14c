// C02: contents of VariableLengthArray<bool> against a model.
#include "vla_machine.hpp"

static void t_bits(pbt::Case& c)
{
    vm::Focus f;
    f.contents = true;
    switch (c.below(5))
    {
    case 4:
        return vm::run<bool, 8>(c, f);
    case 0:
        return vm::run<bool, 0>(c, f);
    case 1:
        return vm::run<bool, 4>(c, f);
    case 2:
        return vm::run<bool, 7>(c, f);
    default:
        return vm::run<bool, 2>(c, f);
    }
}
PBT_TARGET(vla_bool, t_bits, 10000, 200000);
