#!/usr/bin/env python3
"""Single source of properties.jsonl (run by hand after editing; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe or [], hook_needed=None)))

VLA="include/cetl/variable_length_array.hpp"
UV="include/cetl/unbounded_variant.hpp"
FN="include/cetl/pmr/function.hpp"
MEM="include/cetl/pmr/memory.hpp"
IP="include/cetl/pmr/interface_ptr.hpp"
BD="include/cetl/pmr/buffer_memory_resource_delegate.hpp"
MR="include/cetl/pf17/memory_resource.hpp"
SYS="include/cetl/pf17/sys/memory_resource.hpp"
OPT="include/cetl/pf17/optional.hpp"
VAR="include/cetl/pf17/variant.hpp"
SV="include/cetl/pf17/string_view.hpp"
SP="include/cetl/pf20/span.hpp"
RT="include/cetl/rtti.hpp"

prop("C01","VariableLengthArray<T> behaves as a bounded sequence of its elements",
 "After any sequence of VariableLengthArray<T> operations (every constructor, copy, move, assignment, push_back, emplace_back, pop_back, resize, assign, clear, reserve, shrink_to_fit, element access, iteration, comparison) the array holds exactly the elements, in exactly the order, that std::vector<T> would hold, whatever the element type and whatever conforming allocator is used, including allocators and memory resources that can extend a block in place or relocate it (arguments referring to elements of the array itself excluded). Every accessor (size, empty, operator[], at, front, back, data, begin/end, ==, !=) reports that same sequence, at() throws std::out_of_range exactly for positions outside it, and a moved-from array is empty and fully usable. An element given to push_back or emplace_back as an rvalue is moved into the array, not copied.",
 ["histories","inputs","configurations"],
 "all finite histories of public operations over several arrays, all argument values, element types (trivial, SSO strings, tracked, over-aligned, move-only), allocators (stateless, stateful, propagating or not, reallocating, pmr)",
 "The unit tests run fixed scripts of one to a few operations on one array; the state that matters (size, capacity, allocator, limit, storage ownership) is a product of histories and of two arrays' states in the assignment operators.",
 [VLA],
 [("fast_copy_*/fast_forward_* helpers and copy_assign_from/move_assign_from","include/cetl/variable_length_array.hpp VariableLengthArrayBase"),
  ("reserve/resize/shrink_to_fit/grow","include/cetl/variable_length_array.hpp VariableLengthArrayBase"),
  ("reallocate protocol of the allocator","include/cetl/variable_length_array.hpp reallocate_operation")],
 [dict(name="data_/size_/capacity_/max_size_max_",meaning="storage, element count, storage count, limit",where=VLA)],
 ["public accessors of VariableLengthArray"])
prop("C02","VariableLengthArray<bool> behaves as a bounded sequence of bits",
 "After any sequence of operations VariableLengthArray<bool> holds exactly the bits, in exactly the order, that std::vector<bool> would hold, and size, empty, operator[], at, test, front, back, iterators, references (assign, flip, ~, ==) and ==/!= of two arrays all agree with that sequence. Equality of two arrays depends only on their sequences of bits, never on storage contents beyond the last bit, and a moved-from array is empty and fully usable.",
 ["histories","inputs","configurations"],
 "all histories of operations over several bit arrays, all lengths around byte boundaries, all bit patterns and stale bits in storage, several allocators",
 "The tests cover a handful of lengths; equality, resize and assign depend on length modulo 8, on stale bits left by earlier pops and on more than one byte.",
 [VLA],
 [("bit packing, masks in resize/operator==","include/cetl/variable_length_array.hpp VariableLengthArray<bool>"),("last_byte_bit_fill_","include/cetl/variable_length_array.hpp VariableLengthArray<bool>")],
 [dict(name="last_byte_bit_fill_",meaning="index of the last valid bit in the last byte",where=VLA)])
prop("C03","VariableLengthArray never exceeds its maximum size",
 "At every point of every history size() <= capacity() and size() <= max_size() hold and max_size() never exceeds the limit the array was given or the allocator's max_size(); capacity() never exceeds max_size() either (rounded up to whole bytes for bool). With exceptions enabled a request that would need more than max_size() elements throws std::length_error and leaves the array exactly as it was; with exceptions disabled it is clamped (resize/assign/reserve/constructors) or ignored (push_back/emplace_back) and never touches memory beyond the limit; a request within the limit is never refused for its length.",
 ["histories","inputs","configurations"],
 "all histories over arrays with different limits (including 0, 1 and limits not a multiple of 8 for bool), copies, moves and assignments between arrays with different limits, exceptions on and off",
 "Tests check a few limits at single points; limits travel through copy/move/assignment together with capacity and the interaction appears only in histories.",
 [VLA],
 [("max_size()/max_size_max_","include/cetl/variable_length_array.hpp"),("ensure_size_plus_one/grow/reserve clamp","include/cetl/variable_length_array.hpp")])
prop("C04","VariableLengthArray owns storage and elements exactly once",
 "Over any history every element an array constructs is destroyed exactly once, no operation reads or assigns a dead element, and when all arrays are gone nothing is left alive. Every block obtained from an allocator (the one the array was given explicitly, if any) is returned exactly once, with the element count it was obtained with, to an allocator equal to the one it came from, and nothing else (no null block) is returned, for every combination of allocator propagation traits, copy/move construction with a different allocator, assignment between arrays with unequal allocators, and reallocating allocators.",
 ["histories","configurations"],
 "all histories over several arrays, all combinations of propagate_on_container_{copy,move}_assignment, is_always_equal, select_on_container_copy_construction, equal and unequal allocator instances, reallocate support",
 "The allocator-aware paths are chosen by traits at compile time and by equality at run time; tests instantiate few of the combinations and with sizes that fit.",
 [VLA],
 [("fast_deallocate/fast_destroy","include/cetl/variable_length_array.hpp"),("move_assign_from, allocator-extended constructors","include/cetl/variable_length_array.hpp")])
prop("C05","VariableLengthArray survives any allocation failure",
 "If the allocator fails at any point of any history (by throwing std::bad_alloc or, with exceptions disabled, by returning null) no memory is leaked, corrupted or accessed out of bounds and every array stays valid and usable. A failed push_back, emplace_back, reserve, resize or assign that had to obtain memory leaves the contents unchanged, a failed shrink_to_fit is silent, a failed copy or move assignment leaves the destination as it was or a valid (possibly empty) prefix of the source, and with exceptions disabled a failed push_back is visible as an unchanged size() (there a failed resize or assign may also stop at the memory available, and a failed move leave the source as it was).",
 ["fault_sequences","histories","configurations"],
 "all histories, a failure injected at any subset of allocation requests, both failure protocols, T and bool, several element types",
 "Tests inject a failure at one fixed allocation of one fixed operation.",
 [VLA],
 [("null checks after allocate, catch of bad_alloc in shrink_to_fit","include/cetl/variable_length_array.hpp"),("bookkeeping updated after allocation","include/cetl/variable_length_array.hpp reserve/resize")])
prop("C06","VariableLengthArray survives elements that throw",
 "If an element's default/copy/move constructor or copy/move assignment throws at any point of any history, the exception reaches the caller, every constructed element is still destroyed exactly once, all memory is eventually returned, and every array involved stays valid. push_back, emplace_back and reserve of copyable or nothrow-movable elements leave the contents unchanged when they throw.",
 ["fault_sequences","histories"],
 "all histories with an exception injected at any element operation, element types whose copy throws, whose move throws, whose default construction throws",
 "No unit test injects an exception into an element operation of VariableLengthArray.",
 [VLA],
 [("construction order and size_ updates","include/cetl/variable_length_array.hpp resize/reserve/constructors"),("move_if_noexcept","include/cetl/variable_length_array.hpp fast_forward_construct")])
prop("C07","unbounded_variant holds exactly the last value put into it",
 "After any history of construction, in-place construction, emplace, value assignment, copy/move construction and assignment, swap and reset over several variants (any footprint, copyable/movable configuration, with or without a memory resource), has_value, get, get_if, type_id and type_size report exactly the value last stored, a copy is independent and equal, a moved-from variant is empty, and swap exchanges both values. Access with a wrong type gives null / throws bad_unbounded_variant_access, access through a base type known to RTTI gives that base subobject, and an empty variant reports no value, zero type_id and zero size. A value given as an rvalue is moved into the variant, not copied, and make_unbounded_variant gives the same as in-place construction.",
 ["histories","inputs","configurations"],
 "all histories over several variants, value types of sizes from 0 bytes over footprint to PMR-only, types with RTTI bases, configurations <Footprint, Copyable, Movable, Alignment, Pmr>",
 "Tests walk fixed short scripts; the transitions between in-place, allocated and empty states of two variants form a product that only histories reach.",
 [UV,RT],
 [("value_destroyer_/value_copier_/value_mover_/converters","include/cetl/unbounded_variant.hpp"),("base_storage buffers","include/cetl/unbounded_variant.hpp")])
prop("C08","unbounded_variant stays consistent when values throw or memory runs out",
 "If a stored type's constructor, copy or move throws, or the memory resource fails, at any point of any history, then no value is destroyed twice or leaked, no memory is leaked, and each variant is either unchanged, empty, or valueless_by_exception (never plainly empty after a failed value assignment, emplace or copy took the value it had). A variant in any of these states can be queried, copied, moved, swapped, reset, assigned and destroyed, a copy or move of a variant without value has no value, and a later successful assignment, emplace or reset clears valueless_by_exception.",
 ["fault_sequences","histories","configurations"],
 "all histories with exceptions injected at any value operation and failures at any subset of resource requests, with and without exceptions support",
 "Tests make one operation throw in a fixed state and look at that variant only; combinations with PMR buffers and second variants in the valueless state are never reached.",
 [UV],
 [("valueless_by_exception handling","include/cetl/unbounded_variant.hpp"),("make_handlers after construction","include/cetl/unbounded_variant.hpp")])
prop("C09","unbounded_variant stores values where and how it promises",
 "A value whose size is at most the footprint is stored inside the variant and never touches the memory resource; a larger value is stored in one block obtained from that variant's own memory resource with the value's size and the configured alignment, returned exactly once with the same size and alignment to the same resource. A stored object whose alignment does not exceed the configured one is always correctly aligned, and after copy, move, swap and reset to another resource each variant reports the memory resource the documentation says (copy and move take the source's resource, swap exchanges them).",
 ["histories","configurations"],
 "all histories over variants bound to different resources, value sizes below, at and above the footprint, footprint 0, over-aligned configurations",
 "Tests use one or two value sizes and a single resource; the size/alignment/ownership bookkeeping across copies, moves and swaps between variants with different resources is not enumerated.",
 [UV],
 [("base_storage::alloc_new_raw_storage / reset","include/cetl/unbounded_variant.hpp"),("get/set_memory_resource, swap","include/cetl/unbounded_variant.hpp")])
prop("C10","pmr::function calls exactly the callable it was given",
 "After any history of construction, assignment, copy, move, swap and reset over several cetl::pmr::function objects each one is empty or invokes exactly its own copy of the callable last stored in it, passing every argument through unchanged and returning its result unchanged, as std::function would; a callable given away as an rvalue and the target of a function that is moved or swapped are moved, never copied; calling an empty function throws bad_function_call and operator bool tells the two states apart. This includes callables that do not fit the footprint (stored in the memory resource), stateful callables whose copies must be independent, and every state reached after a copy or an allocation fails.",
 ["histories","inputs","fault_sequences"],
 "all histories over several function objects, callables of sizes below/at/above the footprint, stateful, throwing on copy, resource failures, argument categories",
 "Tests store one or two callables per object; the cached pointer to the stored callable must follow every relocation between buffers.",
 [FN,UV],
 [("handler_ptr_ refresh after copy/move/swap","include/cetl/pmr/function.hpp"),("any_handler_ (unbounded_variant)","include/cetl/pmr/function.hpp")])
prop("C11","CETL RTTI agrees with the real class hierarchy",
 "For every object of every class hierarchy built with the RTTI helpers (single, multiple, diamond with virtual bases, depth and breadth arbitrary), rtti_cast to any type identified by RTTI returns null exactly when dynamic_cast would and otherwise the same address, for const and non-const pointers and from any base the object is viewed through. has_instance-type predicates and type ids are consistent with those casts, and null pointers cast to null (bases that an object contains more than once excluded).",
 ["programs","inputs"],
 "all generated class hierarchies and all pairs (static view, target type)",
 "Tests have a handful of hand-written hierarchies.",
 [RT],
 [("rtti_helper::_cast_ recursion","include/cetl/rtti.hpp"),("type_id_getter","include/cetl/rtti.hpp")])
prop("C12","RAII helpers destroy and free exactly once with the right arguments",
 "Objects made by Factory::make_unique and InterfaceFactory::make_unique and memory owned through MemoryResourceDeleter or PolymorphicDeleter (copied, moved and assigned in any way) are destroyed exactly once and their memory is returned exactly once, to the allocator or resource it came from, with the size and alignment it was obtained with, over any history of moves, self-moves, swaps, resets, releases and destruction. If the object's constructor throws, the exception reaches the caller, the memory is returned and no destructor runs; if memory cannot be obtained no object is created and either an exception or a null pointer results. Arguments reach the object's constructor with their value category.",
 ["histories","fault_sequences"],
 "all histories over several owning pointers, concrete types with different sizes and base offsets, constructor exceptions and allocation failures at any point",
 "Tests create and drop single pointers; ownership transfer chains and failing constructors are covered for one helper only.",
 [MEM,IP],
 [("PolymorphicDeleter/MemoryResourceDeleter/PmrInterfaceDeleter","include/cetl/pmr/memory.hpp, include/cetl/pmr/interface_ptr.hpp"),("ConcreteRaii","include/cetl/pmr/interface_ptr.hpp")])
prop("C13","Buffer and array memory resources hand out disjoint, aligned, owned memory",
 "For every history of allocate, reallocate and deallocate on a buffer or array memory resource every live block is aligned as requested, of at least the requested size, disjoint from every other live block and, when it comes from the buffer, entirely inside it; blocks from upstream are requested from and returned to upstream exactly once with the same size and alignment. The buffer serves a request whenever it is free and the aligned request fits, requests larger than the upstream limit never reach upstream, a request that cannot be served fails with std::bad_alloc (null without exceptions), and a failed reallocate leaves the original block valid, owned and unmodified while a successful one preserves its contents; the block in the buffer can be reallocated to any size that fits there, and a block from upstream within the limit is reallocated exactly as upstream answers.",
 ["histories","inputs","fault_sequences","configurations"],
 "all histories, buffer sizes and base misalignments, request sizes 0..beyond buffer, alignments 1..256, upstream limits, upstreams that fail or support reallocate, exceptions on and off",
 "Tests check single allocations on a few sizes.",
 [BD,"include/cetl/pf17/buffer_memory_resource.hpp","include/cetl/pf17/array_memory_resource.hpp"],
 [("allocate_internal_buffer/in_use_","include/cetl/pmr/buffer_memory_resource_delegate.hpp"),("calculate_max_size_bytes","include/cetl/pmr/buffer_memory_resource_delegate.hpp")])
prop("C14","monotonic_buffer_resource: disjoint aligned memory, everything released",
 "For every history of allocate, deallocate and release on a monotonic_buffer_resource every block handed out since the last release is aligned as requested, disjoint from the others, inside the initial buffer or an upstream block, and keeps its contents until release or destruction; deallocate has no effect. Every upstream block is requested with a valid size and a sufficient alignment and returned exactly once, with the size and alignment it was requested with, on release or destruction; the initial buffer is used first and again after release, and a failing upstream makes allocate fail without disturbing earlier blocks. No request larger than max_size() succeeds, and a resource is equal only to itself.",
 ["histories","inputs","fault_sequences","configurations"],
 "all histories, initial buffer sizes and misalignments, request sizes and alignments, upstream failures, exceptions on and off",
 "Tests make a few allocations with default alignment and an upstream that always returns maximally aligned memory.",
 [MR],
 [("basic_monotonic_buffer_resource::do_allocate growth","include/cetl/pf17/memory_resource.hpp"),("BufferControl chain","include/cetl/pf17/memory_resource.hpp")])
prop("C15","polymorphic_allocator follows the uses-allocator and memory-resource contract",
 "polymorphic_allocator obtains memory for n objects from exactly its resource with n*sizeof(T) bytes and alignof(T), returns and reallocates it with the same values and passes on the resource's answer, throws (never wraps around) when n*sizeof(T) is not representable, and compares equal exactly when the resources are equal. construct() builds any object, including pairs from zero arguments, two values, copied, moved or piecewise arguments, passing the allocator to every allocator-aware object or pair member in the leading or trailing convention it supports, forwarding every argument with its value category and lifetime intact, as std::pmr::polymorphic_allocator does; destroy() ends its lifetime once.",
 ["inputs","configurations","histories"],
 "all counts including overflowing ones, element types with leading/trailing/no allocator convention and their pairs, all argument categories",
 "Tests construct a few pairs with one convention each; several overloads are never instantiated.",
 [MR],
 [("polymorphic_allocator::construct overloads","include/cetl/pf17/memory_resource.hpp"),("allocate overflow guard","include/cetl/pf17/memory_resource.hpp")])
prop("C16","The process-wide memory resources behave as atomic registers",
 "new_delete_resource, null_memory_resource and get_default_resource always return usable resources; set_default_resource and set_new_delete_resource return the previously installed resource and install the given one (null restores the built-in one; set_default_resource(nullptr) installs the current new_delete_resource()), and objects that use the default resource use the one installed when they were created. When several threads call the setters concurrently no data race occurs and the calls behave as atomic exchanges: every installed resource is returned by exactly one later call or is the one installed at the end. The built-in resource returns writable memory of the requested size aligned for any type, gives it back to the heap on deallocate, fails for impossible sizes and alignments with std::bad_alloc (null without exceptions) and the null resource always fails so.",
 ["schedules","histories","inputs"],
 "all sequential histories of set/get calls and all thread schedules of concurrent setters, all sizes and alignments",
 "Tests call each setter once, sequentially.",
 [SYS,MR],
 [("std::atomic exchange in the setters","include/cetl/pf17/sys/memory_resource.hpp"),("MaxAlignNewDeleteResource / NullResource","include/cetl/pf17/sys/memory_resource.hpp")])
prop("C17","pf17::optional behaves as std::optional",
 "For every history over pf17::optional objects (construction, conversion, assignment from values, optionals and nullopt, emplace, reset, swap, moves) and every contained type, has_value, value, operator*, value_or, every comparison (with optionals, values and nullopt, including unordered values such as NaN) and every thrown exception are those of std::optional for the same history. Contained objects are constructed and destroyed exactly when std::optional constructs and destroys them, including when the contained type's operations throw, in which case the exception reaches the caller.",
 ["histories","inputs","fault_sequences"],
 "all histories over several optionals, value types trivial/non-trivial/convertible/move-only/throwing, all values incl. NaN, exceptions at any element operation",
 "Tests are single-step examples without injected exceptions in copies and without unordered values.",
 [OPT],
 [("detail::opt base classes","include/cetl/pf17/optional.hpp"),("comparison operators","include/cetl/pf17/optional.hpp")])
prop("C18","pf17::variant behaves as std::variant",
 "For every history over pf17::variant objects (construction, converting construction and assignment, in-place construction, emplace by type and index, copy/move assignment between same and different alternatives, swap) index, holds_alternative, get, get_if, valueless_by_exception and all comparisons (including unordered values such as NaN) are those of std::variant for the same history. Alternatives are constructed and destroyed exactly once; when an alternative's operation throws the exception reaches the caller and the variant ends in the state std::variant ends in (unchanged or valueless), and a valueless variant can be assigned, swapped, compared, copied and destroyed.",
 ["histories","inputs","fault_sequences"],
 "all histories over several variants, alternatives trivial/non-trivial/throwing copy/throwing move/duplicate types, exceptions at any operation",
 "Tests check single transitions with mock profiles; sequences through the valueless state and comparison of unordered values are not covered.",
 [VAR],
 [("detail::var base classes","include/cetl/pf17/variant.hpp"),("operator= strategies (nothrow vs. temporary)","include/cetl/pf17/variant.hpp")])
prop("C19","visit calls the visitor once with the active alternatives",
 "For every number of variants, every combination of active alternatives and every value category and constness of the variants, visit invokes the visitor exactly once, with references to exactly the active alternatives in argument order and with the corresponding value category, and returns what the visitor returned (references stay references to the same object); if any variant is valueless it throws bad_variant_access and does not invoke the visitor. make_overloaded and visit_helpers select the overload normal C++ overload resolution selects.",
 ["inputs","configurations"],
 "all combinations of active alternatives of 1..4 variants with 1..9 alternatives each, const/non-const, lvalue/rvalue, visitors returning values, references and void",
 "Tests visit one or two variants in a few states.",
 [VAR,"include/cetl/visit_helpers.hpp"],
 [("chronomorphize dispatch tables","include/cetl/pf17/variant.hpp")])
prop("C20","pf17::string_view behaves as std::string_view",
 "For every string (including empty, null-pointer-with-zero-length and embedded NULs) and all arguments, basic_string_view's construction, size, element access, substr, copy, remove_prefix/suffix, compare and find in all overloads that exist, relational operators, iteration, swap and stream output with every width, fill and alignment give the result of std::basic_string_view, including thrown std::out_of_range; user-supplied character traits are honoured. (remove_prefix/remove_suffix beyond the end are clamped to an empty view.)",
 ["inputs","configurations"],
 "all strings over small and full alphabets, all positions including npos and past-the-end, char and wide char, custom traits, all stream format states",
 "Tests use a few literals; boundary combinations (empty needle at the end, pos==size, width with default flags) are not covered.",
 [SV],
 [("find/rfind/compare/operator<<","include/cetl/pf17/string_view.hpp")])
prop("C21","pf20::span behaves as std::span",
 "For every underlying sequence and every way of making a span from it (pointer and count, iterator pair, C array, std::array, other span; static and dynamic extent) size, size_bytes, empty, data, operator[], front, back, iteration in both directions, first, last and subspan in their static and dynamic forms, and conversions denote exactly the elements std::span denotes (same addresses, same extents), and writes through a span are visible in the underlying sequence (elements that are pointers and the general range constructor excluded).",
 ["inputs","configurations"],
 "all lengths, offsets and counts, chains of sub-views, element types and constness, static and dynamic extents",
 "Tests use a few fixed arrays and offsets; chains of sub-views over static and dynamic extents are not generated.",
 [SP],
 [("span member functions, static and dynamic specialisations","include/cetl/pf20/span.hpp")])
prop("C22","Copyability, movability and noexcept of optional/variant match their contents",
 "For every list of contained types, pf17::optional and pf17::variant are copy/move constructible and assignable exactly when std::optional and std::variant are, trivially so (for optional and variant destruction, copy and move) when std's are, never claim to be noexcept for an operation that can throw, and converting construction and assignment of variant select the alternative std::variant selects. unbounded_variant and pmr::function are copyable and movable exactly as configured (a copyable variant also accepts rvalues).",
 ["programs","configurations"],
 "all generated contained types with arbitrary combinations of deleted/trivial/throwing special members, lists of 1..4 alternatives and all conversion sources",
 "Tests enumerate a fixed set of mock profiles at compile time.",
 [OPT,VAR,UV,"include/cetl/_helper_enable_copy_move.hpp","include/cetl/pf17/utility.hpp"],
 [("enable_copy_ctor/enable_move_ctor/... policies","include/cetl/_helper_enable_copy_move.hpp, include/cetl/pf17/variant.hpp, include/cetl/pf17/optional.hpp"),("best_converting_ctor_index","include/cetl/pf17/variant.hpp")])
prop("C23","Compile-time type utilities compute what their definitions say",
 "For every list of types and every predicate, the type-list search and count utilities of type_traits_ext return the first matching index (npos when there is none) and the exact number of matches, partial application binds exactly the given arguments, and the polyfilled traits (conjunction, disjunction, negation, void_t, bool_constant, is_swappable, in_place tags) give the values of their std counterparts.",
 ["programs"],
 "all generated type lists up to length 12 and predicates over them",
 "Tests have one or two lists per utility.",
 ["include/cetl/type_traits_ext.hpp","include/cetl/pf17/type_traits.hpp","include/cetl/pf17/utility.hpp"],
 [("recursive templates","include/cetl/type_traits_ext.hpp")])
prop("C24","Heap-backed (o1heap) memory resource routes every request faithfully",
 "For every history of allocations and deallocations on the o1heap memory resource every live block is disjoint from all others, inside the storage it was given, aligned as requested and large enough; every block is freed to the same heap exactly once, and a request the heap cannot serve at the requested size or alignment fails with std::bad_alloc (null without exceptions) and leaves earlier blocks intact.",
 ["histories","inputs"],
 "all histories, heap sizes, request sizes and alignments",
 "The unit test of this delegate is not even built here (o1heap is not installed) and makes two allocations.",
 ["include/cetl/pmr/o1heap_memory_resource_delegate.hpp"],
 [("o1heapAllocate/o1heapFree forwarding","include/cetl/pmr/o1heap_memory_resource_delegate.hpp")])
prop("C25","Containers and resources compose: no corruption through any stack of them",
 "For every stack of CETL components (VariableLengthArray, unbounded_variant, pmr::function, owning pointers over polymorphic_allocator over buffer, array, monotonic and built-in resources chained upstream in any order) and every history of operations on them, the contents read back are those written, no two live objects share memory, every object is aligned, and when everything is destroyed every resource has got back exactly what it handed out.",
 ["histories","configurations","fault_sequences"],
 "all stacks of resources up to depth 4, all histories of several containers sharing them, buffer sizes that force fall-through to upstream and exhaustion",
 "Tests use each component alone, on a resource that never runs out.",
 [VLA,UV,FN,MEM,IP,BD,MR,SYS],
 [("memory_resource interface incl. reallocate","include/cetl/pf17/memory_resource.hpp"),("allocator propagation","include/cetl/variable_length_array.hpp")])
prop("C26","Every header stands alone and the portable names mean the same everywhere",
 "Every selection of the public headers, included in any order and in any number of translation units of one program, compiles and links in C++14, C++17 and C++20, with and without exceptions, RTTI and debug assertions, each header providing what it documents, and what the headers define as process-wide is one object for the whole program. A program written with the portable names of the two polyfill headers (cetl::optional, variant, visit, string_view, span, pmr::...) and the containers over them behaves the same in C++14 (where they are CETL's own types) as in C++17 and C++20 (where they are the standard library's), as far as both provide the operation.",
 ["programs","configurations"],
 "all sets and orders of headers, 2 to 4 translation units, 24 compiler configurations; all programs over the portable names made of the operations both sides provide",
 "Every test file is its own program with a fixed list of includes; none is linked from several units including the same headers, and no test compares the polyfills with the standard library.",
 ["include/cetl/cetl.hpp","include/cetl/pf17/cetlpf.hpp","include/cetl/pf20/cetlpf.hpp"],
 [("aliases selected by __cplusplus","include/cetl/pf17/cetlpf.hpp, include/cetl/pf20/cetlpf.hpp"),("inline functions and function-local statics","include/cetl/pf17/memory_resource.hpp, include/cetl/pf17/sys/memory_resource.hpp")])
prop("C27","Without exceptions a failing checked access ends the program",
 "In a build without exceptions a checked access that cannot succeed (string_view at, copy and substr with a position outside the view, get of an alternative a variant does not hold, get of a type an unbounded_variant does not hold, a call of an empty pmr::function) ends the program through std::terminate or abort: it never returns and never touches memory it does not own first. Every such access that can succeed returns the value, in every state any history leads to.",
 ["histories","inputs","configurations"],
 "all views, positions and counts, all states of variants, unbounded variants and functions after short histories, all value categories of the access, with and without debug assertions",
 "The unit tests are built with exceptions, so what happens without them is never executed.",
 [SV,VAR,UV,FN],
 [("std::terminate instead of throw","include/cetl/pf17/string_view.hpp, include/cetl/pf17/variant.hpp, include/cetl/unbounded_variant.hpp, include/cetl/pmr/function.hpp")])
prop("C28","Polyfills give the same answers in constant expressions as at run time",
 "What string_view, optional, variant, get, get_if, holds_alternative, visit and the overload helper declare as usable in constant expressions is: a program may make such objects of any literal contents, query and visit them while it is compiled, and gets the values it would get at run time and with the standard library. Contained types that are trivially destructible and copyable leave the optional or variant a literal type.",
 ["programs"],
 "all constexpr functions of up to 23 steps over views of up to 13 characters, optionals and variants of scalar and class types, in C++14, C++17 and C++20 with two compilers",
 "Tests run nearly everything at run time, and a constexpr member of a class template that cannot be evaluated by the compiler is no error until someone needs it there.",
 [SV,OPT,VAR,"include/cetl/visit_helpers.hpp"],
 [("constexpr members calling non-constexpr functions","include/cetl/pf17/string_view.hpp, include/cetl/pf17/optional.hpp"),("constexpr visitation","include/cetl/pf17/variant.hpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for p in P: assert len(p["title"])<=80, p["id"]
open(out,"w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
