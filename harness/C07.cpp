// C07/C08/C09: unbounded_variant against a model. WHAT selects the property.
#include "uv_machine.hpp"

static uv::Focus focus()
{
    uv::Focus f;
    f.storage = WHAT == 9;
    f.faults  = WHAT == 8;
    return f;
}
#define T(name, fp, cp, mv, al, pmr, q, th)                                                                            \
    static void run_##name(pbt::Case& c) { uv::run<uv::Conf<fp, cp, mv, al, pmr>>(c, focus()); }                       \
    PBT_TARGET(name, run_##name, q, th);

#if PART == 1
T(inplace_copy_move, 80, true, true, 16, false, 4000, 100000)
T(inplace_move, 64, false, true, 32, false, 4000, 100000)
T(inplace_copy, 80, true, false, 16, false, 4000, 100000)
T(inplace_fixed, 64, false, false, 16, false, 2000, 50000)
#elif PART == 2
T(pmr_copy_move, 0, true, true, 16, true, 4000, 100000)
T(pmr_move, 0, false, true, 8, true, 4000, 100000)
T(pmr_copy, 0, true, false, 16, true, 4000, 100000)
T(both_copy_move, 32, true, true, 16, true, 4000, 100000)
#else
T(both_move, 24, false, true, 32, true, 4000, 100000)
T(both_copy, 40, true, false, 16, true, 4000, 100000)
T(both_fixed, 24, false, false, 32, true, 2000, 50000)
T(both_large, 128, true, true, 64, true, 4000, 100000)
#endif
