// C04: every element destroyed once, every block returned once to the right allocator with the right count.
#include "vla_machine.hpp"

template <typename T, unsigned A, unsigned B, unsigned C, unsigned D, unsigned E>
static void with(pbt::Case& c)
{
    vm::Focus f;
    f.ownership = true;
    switch (c.below(5))
    {
    case 0:
        return vm::run<T, A>(c, f);
    case 1:
        return vm::run<T, B>(c, f);
    case 2:
        return vm::run<T, C>(c, f);
    case 3:
        return vm::run<T, D>(c, f);
    default:
        return vm::run<T, E>(c, f);
    }
}
#if PART == 1 || PART == 2
template <typename T>
static void go(pbt::Case& c)
{
    with<T, 0, 1, 2, 3, 4>(c);
}
#else
template <typename T>
static void go(pbt::Case& c)
{
    with<T, 5, 6, 7, 8, 9>(c);
}
#endif
static void t_full(pbt::Case& c) { go<trk::Elem<trk::Full>>(c); }
static void t_throwmove(pbt::Case& c) { go<trk::Elem<trk::ThrowingMove>>(c); }
static void t_moveonly(pbt::Case& c) { go<trk::Elem<trk::MoveOnly>>(c); }
static void t_int(pbt::Case& c) { go<int>(c); }
static void t_bits(pbt::Case& c) { go<bool>(c); }
#if PART == 1
PBT_TARGET(own_tracked, t_full, 4000, 100000);
PBT_TARGET(own_throwing_move, t_throwmove, 2000, 50000);
PBT_TARGET(own_move_only, t_moveonly, 2000, 50000);
#elif PART == 2
PBT_TARGET(own_int, t_int, 3000, 60000);
PBT_TARGET(own_bool, t_bits, 3000, 60000);
#elif PART == 3
PBT_TARGET(own_tracked_more, t_full, 4000, 100000);
PBT_TARGET(own_move_only_more, t_moveonly, 2000, 50000);
PBT_TARGET(own_bool_more, t_bits, 3000, 60000);
#endif
