// C06: element exceptions at any point of any history.
#include "vla_machine.hpp"

template <typename T, unsigned A, unsigned B, unsigned C>
static void go(pbt::Case& c)
{
    vm::Focus f;
    f.throws = true;
    switch (c.below(3))
    {
    case 0:
        return vm::run<T, A>(c, f);
    case 1:
        return vm::run<T, B>(c, f);
    default:
        return vm::run<T, C>(c, f);
    }
}
static void t_full(pbt::Case& c) { go<trk::Elem<trk::Full>, 0, 1, 6>(c); }
static void t_throwmove(pbt::Case& c) { go<trk::Elem<trk::ThrowingMove>, 0, 2, 5>(c); }
static void t_copyonly(pbt::Case& c) { go<trk::Elem<trk::CopyOnly>, 0, 3, 4>(c); }
static void t_moveonly(pbt::Case& c) { go<trk::Elem<trk::MoveOnlyThrowing>, 0, 2, 4>(c); }
PBT_TARGET(throw_full, t_full, 3000, 80000);
PBT_TARGET(throw_throwing_move, t_throwmove, 3000, 80000);
PBT_TARGET(throw_copy_only, t_copyonly, 2000, 50000);
PBT_TARGET(throw_move_only, t_moveonly, 2000, 50000);
