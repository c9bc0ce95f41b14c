// C01: contents of VariableLengthArray<T> against a model, for many element types and allocators.
#include "vla_machine.hpp"

#include "cetl/pf17/sys/memory_resource.hpp"

static vm::Focus contents()
{
    vm::Focus f;
    f.contents = true;
    return f;
}
template <typename T>
static void go(pbt::Case& c)
{
    switch (c.below(5))
    {
    case 4:
        return vm::run<T, 8>(c, contents());
    case 0:
        return vm::run<T, 0>(c, contents());
    case 1:
        return vm::run<T, 4>(c, contents());
    case 2:
        return vm::run<T, 7>(c, contents());
    default:
        return vm::run<T, 2>(c, contents());
    }
}
#if PART == 1
/// The default memory resource reallocates with std::realloc, which moves the bytes of the elements.
static void known_realloc(pbt::Case& c)
{
    using A = cetl::pf17::pmr::polymorphic_allocator<std::string>;
    cetl::VariableLengthArray<std::string, A> v{A{cetl::pf17::pmr::new_delete_resource()}};
    c.log("push_back of short strings, default memory resource");
    for (int i = 0; i < 100; ++i)
    {
        v.push_back(std::to_string(i));
    }
    for (int i = 0; i < 100; ++i)
    {
        PBT_CHECK(v[static_cast<std::size_t>(i)] == std::to_string(i), "element %d is \"%s\"", i, v[static_cast<std::size_t>(i)].c_str());
    }
}
PBT_TARGET(known_realloc_relocates, known_realloc, 1, 1);
static void t_int(pbt::Case& c) { go<int>(c); }
static void t_pod(pbt::Case& c) { go<vm::Pod>(c); }
static void t_string(pbt::Case& c) { go<std::string>(c); }
static void t_full(pbt::Case& c) { go<trk::Elem<trk::Full>>(c); }
PBT_TARGET(vla_int, t_int, 2000, 60000);
PBT_TARGET(vla_pod, t_pod, 1000, 30000);
PBT_TARGET(vla_string, t_string, 2000, 60000);
PBT_TARGET(vla_tracked, t_full, 2000, 60000);
#else
static void t_over(pbt::Case& c) { go<vm::Over>(c); }
static void t_seeded(pbt::Case& c) { go<vm::Seeded>(c); }
static void t_moveonly(pbt::Case& c) { go<trk::Elem<trk::MoveOnly>>(c); }
static void t_copyonly(pbt::Case& c) { go<trk::Elem<trk::CopyOnly>>(c); }
static void t_throwmove(pbt::Case& c) { go<trk::Elem<trk::ThrowingMove>>(c); }
PBT_TARGET(vla_over_aligned, t_over, 1000, 30000);
PBT_TARGET(vla_no_default, t_seeded, 1000, 30000);
PBT_TARGET(vla_move_only, t_moveonly, 1000, 30000);
PBT_TARGET(vla_copy_only, t_copyonly, 1000, 30000);
PBT_TARGET(vla_throwing_move, t_throwmove, 1000, 30000);
#endif
