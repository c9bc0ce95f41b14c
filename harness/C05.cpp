// C05: allocation failure at any point of any history.
#include "vla_machine.hpp"

template <typename T, unsigned A, unsigned B, unsigned C>
static void go(pbt::Case& c)
{
    vm::Focus f;
    f.oom = true;
    switch (c.below(3))
    {
    case 0:
        return vm::run<T, A>(c, f);
    case 1:
        return vm::run<T, B>(c, f);
    default:
        return vm::run<T, C>(c, f);
    }
}
static void t_full(pbt::Case& c) { go<trk::Elem<trk::Full>, 0, 1, 6>(c); }
static void t_throwmove(pbt::Case& c) { go<trk::Elem<trk::ThrowingMove>, 0, 2, 5>(c); }
static void t_int(pbt::Case& c) { go<int, 0, 3, 4>(c); }
static void t_bits(pbt::Case& c) { go<bool, 0, 3, 4>(c); }
PBT_TARGET(oom_tracked, t_full, 3000, 80000);
PBT_TARGET(oom_throwing_move, t_throwmove, 1500, 40000);
PBT_TARGET(oom_int, t_int, 2000, 50000);
PBT_TARGET(oom_bool, t_bits, 3000, 80000);
