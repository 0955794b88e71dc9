"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
D = "include/boost/atomic/detail/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


p("A01", "Every operation on a lock-free object is one indivisible access",
  "Every load, store, exchange, compare-exchange, arithmetic, bitwise and bit operation on a lock-free atomic object or atomic reference takes effect as a single indivisible access to the whole object: no other thread can see an intermediate state, and no concurrent update is lost between the value the operation reports or computes from and the value it stores. "
  "An operation modifies the object exactly once (a failed compare-exchange and a load: never), and touches no memory outside the object and the caller's arguments.",
  ["schedules", "programs", "configurations"],
  "all interleavings of concurrent operations, all value types and sizes up to 16 bytes, atomic<>, atomic_ref<>, ipc_ variants, all back-ends reachable on x86-64 with gcc and clang",
  "The tests call the operations from one thread (the few threaded tests sample a handful of schedules on a few types); a plain load-modify-store or an update computed from a stale value gives the same answers there.",
  [D + "core_ops_gcc_atomic.hpp", D + "core_arch_ops_gcc_x86.hpp", D + "extra_ops_gcc_x86.hpp", D + "extra_ops_generic.hpp", D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp", D + "fp_ops_generic.hpp", D + "extra_fp_ops_generic.hpp"],
  [("read-modify-write loops", D + "extra_ops_generic.hpp"), ("locked instructions", D + "extra_ops_gcc_x86.hpp"), ("double-width compare-exchange", D + "core_arch_ops_gcc_x86.hpp")])

p("A02", "Integer operations compute the documented value and result",
  "For every argument and every prior value, each integral operation (add, sub, negate, and, or, xor, complement, bit test-and-modify, their opaque_, *_and_test and operator forms) leaves in the object exactly the documented modulo-2^N function of the prior value and the argument, and returns what its family documents: fetch_* the old value, the unprefixed form and operators the new value, *_and_test whether the new value is non-zero, bit_test_* the old state of the addressed bit. "
  "This holds identically for every integral type, every memory order, constant and variable arguments, and lock-free and non-lock-free objects.",
  ["inputs", "configurations", "programs"],
  "all prior values and arguments of every integral type from 8 to 128 bits; every constant/variable argument form; every back-end",
  "The tests sample a few dozen argument pairs per type; an error on a particular value, width, constant argument, operator form or back-end outside the sample is not seen.",
  [D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp", D + "extra_ops_gcc_x86.hpp", D + "extra_ops_generic.hpp", D + "extra_ops_emulated.hpp", D + "core_ops_gcc_atomic.hpp", D + "core_operations_emulated.hpp", D + "integral_conversions.hpp"],
  [("per-family result", D + "extra_ops_generic.hpp"), ("flag results", D + "extra_ops_gcc_x86.hpp")])

p("A03", "Floating-point operations compute the documented value and result",
  "For every prior value and argument, floating-point add, sub and negate (fetch_, plain, opaque_ and operator forms) store exactly the value of the ordinary floating-point expression on the prior value and the argument, and return the old value (fetch_) or the new value (others). "
  "Every bit pattern, NaNs, infinities and signed zeros included, can be loaded, stored, exchanged and compared-and-exchanged unchanged.",
  ["inputs", "configurations"],
  "all bit patterns of float, double and long double; lock-free and non-lock-free; every memory order",
  "The tests use a few small finite values.",
  [D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp", D + "fp_ops_generic.hpp", D + "fp_ops_emulated.hpp", D + "extra_fp_ops_generic.hpp", D + "extra_fp_ops_emulated.hpp", D + "bitwise_fp_cast.hpp"],
  [("fp read-modify-write loop", D + "fp_ops_generic.hpp"), ("negate by arithmetic", D + "extra_fp_ops_generic.hpp")])

p("A04", "Pointer arithmetic scales by the pointed-to size",
  "On an atomic pointer to an object of size S, adding or subtracting n (fetch_, plain, opaque_, *_and_test, ++, --, +=, -= forms) moves the stored address by exactly n*S bytes, for every n of either sign, and returns the old pointer, the new pointer, or whether the new pointer is non-null, as the form documents. "
  "Pointers to void and to functions offer only load, store, exchange and compare-exchange, which preserve the pointer.",
  ["inputs", "programs", "configurations"],
  "all pointer values and element sizes, all signed displacements, constants included",
  "The tests use small displacements on one or two element types.",
  [D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp"],
  [("displacement scaling", D + "atomic_impl.hpp"), ("displacement scaling", D + "atomic_ref_impl.hpp")])

p("A05", "Load, store, exchange and compare-exchange carry whole values",
  "load returns exactly the value last written, store and exchange write exactly their argument and exchange returns exactly the previous value, for every object type. "
  "compare_exchange_strong stores the desired value and returns true exactly when the object's representation equalled the expected one; otherwise either form leaves the object unchanged, returns false and puts the value it observed into expected; compare_exchange_weak may also fail when they are equal, and on success expected keeps its value.",
  ["inputs", "schedules", "programs", "configurations"],
  "all values of all integral, enum, bool, floating-point, pointer and trivially copyable class types of 1 to 24 bytes, including sizes that are not powers of two; concurrent modification between the call and the comparison",
  "The tests use a couple of values per type from one thread, so a wrong width, a stale expected value or a false failure on an unusual value is not seen.",
  [D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp", D + "bitwise_cast.hpp", D + "core_ops_gcc_atomic.hpp", D + "core_arch_ops_gcc_x86.hpp", D + "core_operations_emulated.hpp"],
  [("value/storage casts", D + "bitwise_cast.hpp"), ("expected write-back", D + "atomic_impl.hpp")])

p("A06", "An operation is never weaker than the requested memory order",
  "Every operation provides at least the ordering requested: loads acquire / seq_cst, stores release / seq_cst, read-modify-writes both, compare-exchange the success order when it succeeds and the failure order when it fails. "
  "When the order is omitted the operation is sequentially consistent, and a compare-exchange given one order uses on failure that order without its release part.",
  ["schedules", "configurations", "programs"],
  "all legal memory orders and (success, failure) pairs of every operation, object kind and type; all weak-memory executions",
  "x86 hardware hides most weakenings and the ordering tests sample schedules of two operations only; compiler reordering permitted by a weaker order depends on the calling program.",
  [D + "core_ops_gcc_atomic.hpp", D + "core_arch_ops_gcc_x86.hpp", D + "extra_ops_gcc_x86.hpp", D + "extra_ops_generic.hpp", D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp", D + "memory_order_utils.hpp", D + "fence_arch_ops_gcc_x86.hpp"],
  [("order translation", D + "gcc_atomic_memory_order_utils.hpp"), ("failure order deduction", D + "memory_order_utils.hpp"), ("seq_cst stores", D + "core_arch_ops_gcc_x86.hpp")])

p("A07", "Non-lock-free operations are mutually exclusive on the object",
  "Every operation on an object that is not lock-free accesses the object only while holding one internal lock, computes its result and new value from the object's content under that same acquisition, and releases the lock exactly once before returning. "
  "It therefore appears atomic to every other operation on the same object.",
  ["schedules", "inputs", "configurations"],
  "all interleavings; all operations on types without a native implementation, and every type when native operations are disabled",
  "A short unlocked access or a value computed outside the lock gives right answers single-threaded and is rarely caught by sampled schedules.",
  [D + "core_operations_emulated.hpp", D + "extra_ops_emulated.hpp", D + "fp_ops_emulated.hpp", D + "extra_fp_ops_emulated.hpp", D + "lock_pool.hpp"],
  [("scoped lock", D + "lock_pool.hpp"), ("locked bodies", D + "core_operations_emulated.hpp")])

p("A08", "All operations on one object agree on the internal lock",
  "Every non-lock-free operation and every waiting or notifying operation on a given object selects the same internal lock, whatever operation, reference instance, constness or translation unit is used (provided they agree on whether the type is lock-free), and the selection depends on the object's address only. "
  "The selected lock always exists: any address maps inside the internal table, whose entries do not overlap.",
  ["inputs", "programs", "configurations"],
  "all object addresses, all operations of a type, atomic_ref instances made in different translation units",
  "The tests use few objects from one translation unit; two operations that pick different locks still give right answers when they do not overlap in time.",
  [D + "lock_pool.hpp", "src/lock_pool.cpp", D + "core_operations_emulated.hpp", D + "wait_ops_generic.hpp", D + "wait_ops_emulated.hpp"],
  [("address hash", D + "lock_pool.hpp"), ("table index", "src/lock_pool.cpp")])

p("A09", "The internal lock gives mutual exclusion, ordering and progress",
  "At most one thread holds a given internal lock at any time; what a thread did before releasing it happens before what the next holder does after acquiring it. "
  "A thread that blocks on a held lock is woken after the lock becomes free: no sequence of lock, contention, wake-up and release leaves a waiter asleep on a free lock.",
  ["schedules", "fault_sequences"],
  "all interleavings of any number of threads acquiring and releasing, spurious wake-ups and interrupted waits included",
  "Contended paths are reached rarely by the tests, and a missed wake-up needs a window of a few instructions.",
  ["src/lock_pool.cpp", D + "futex.hpp"],
  [("mutex state word", "src/lock_pool.cpp"), ("contention flag and wake", "src/lock_pool.cpp")])

p("A10", "A wait returns only on a changed value and never misses a notify",
  "wait returns only a value it observed in the object that differs from the one given, with the requested ordering; it never blocks once the object has been changed and a notify that follows the change has been issued, wherever the change and the notify fall relative to the steps of the wait. "
  "notify_one and notify_all reach waiters on the same object from any thread (and for inter-process objects any process), for every object kind.",
  ["schedules", "inputs", "programs"],
  "all placements of a concurrent store and notify relative to the waiter's steps, spurious wake-ups, all object types and kinds",
  "The tests notify well after the waiter has blocked; the windows before it blocks are a few instructions wide.",
  [D + "wait_ops_generic.hpp", D + "wait_ops_emulated.hpp", D + "wait_ops_futex.hpp", D + "wait_operations.hpp", D + "futex.hpp", D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp"],
  [("check under the lock before blocking", D + "wait_ops_generic.hpp"), ("futex expected value", D + "wait_ops_futex.hpp")])

p("A11", "Timed waits report timeout truthfully and honour the deadline",
  "wait_until and wait_for return either an observed value different from the one given, marked not timed out, or, only once the deadline has been reached, the value given, marked timed out; like wait they miss no notify. "
  "They never block past the deadline the caller gave, re-arm with the remaining time after a spurious wake-up, and an already expired deadline returns without blocking.",
  ["schedules", "inputs", "fault_sequences"],
  "all deadlines and durations that are representable, every clock (with and without POSIX clock integration), all object types and kinds, spurious or interrupted wake-ups, notifications at any point",
  "The tests use a few durations with no interference, and cannot place a notify inside the window between the check and blocking.",
  [D + "wait_ops_generic.hpp", D + "wait_ops_emulated.hpp", D + "wait_ops_futex.hpp", D + "chrono.hpp", D + "futex.hpp", "src/lock_pool.cpp", "include/boost/atomic/wait_result.hpp"],
  [("deadline conversion", D + "chrono.hpp"), ("timeout flag", D + "wait_ops_generic.hpp")])

p("A12", "Blocked waiters are woken by the internal notify protocol",
  "For objects whose waits go through the internal lock table: a waiter that has checked the value under the lock and then blocks is woken by any later notify on that object, because it records the notification counter before it releases the lock and blocks only while the counter is unchanged. "
  "notify_one moves or wakes at least one blocked waiter and notify_all all of them, waiters moved to the lock are woken by its releases, and a waiter always holds the lock again when the wait returns.",
  ["schedules", "fault_sequences"],
  "all interleavings of waiters, notifiers and lock holders; interrupted system calls; failure to allocate waiter bookkeeping",
  "The races are between individual system calls and memory accesses inside one call.",
  ["src/lock_pool.cpp", D + "futex.hpp"],
  [("condition counter", "src/lock_pool.cpp"), ("requeue to the lock", "src/lock_pool.cpp")])

p("A13", "Waiter bookkeeping is memory safe for any number of waiters",
  "However many objects are waited on concurrently, in whatever order waits begin and end, the internal waiter table stays consistent: each waited-on address has one entry with a correct reference count, entries are found by address, growth keeps existing entries, and no access is outside the table or to a freed entry. "
  "If memory for bookkeeping cannot be obtained, waits degrade to polling and still behave correctly.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of waits beginning and ending on objects sharing a table entry, allocation failure at any point, process exit",
  "The tests wait on at most a few objects and never fail an allocation, so growth, removal from the middle and the fallback are not reached.",
  ["src/lock_pool.cpp", D + "lock_pool.hpp"],
  [("waiter list", "src/lock_pool.cpp"), ("allocation", "src/lock_pool.cpp")])

p("A14", "Every address search variant finds the address when it is there",
  "The vectorised searches of the waiter table and the portable one give equivalent results for every table content, size and searched address: the index of an entry equal to the address when the table has one, and a value not below the size when there is none. "
  "The variant picked for a processor uses only instructions that processor reports, and no variant reads outside the table's storage.",
  ["inputs", "configurations"],
  "all table contents, sizes (any residue modulo the vector width) and addresses; all x86 feature levels",
  "The test runs the variants over small tables with a few patterns on the one processor of the build machine.",
  ["src/find_address_sse2.cpp", "src/find_address_sse41.cpp", "src/lock_pool.cpp", "src/cpuid.hpp", "src/bit_operation_tools.hpp", "src/x86_vector_tools.hpp"],
  [("SSE4.1 search", "src/find_address_sse41.cpp"), ("SSE2 search", "src/find_address_sse2.cpp"), ("dispatch", "src/lock_pool.cpp")])

p("A15", "Inter-process atomics work across address spaces",
  "Operations on ipc_atomic, ipc_atomic_ref and ipc_atomic_flag depend only on the object's memory, never on per-process state or on the address at which it is mapped, so two processes mapping it at different addresses interoperate; waits are woken by notifies from another process. "
  "Using an inter-process object whose operations would not be lock-free is rejected at compile time.",
  ["programs", "configurations", "schedules"],
  "every operation and type of the inter-process classes, every back-end, any mapping address",
  "The tests map the object once in one process, where process-private futexes and address-keyed state work just as well.",
  ["include/boost/atomic/ipc_atomic.hpp", "include/boost/atomic/ipc_atomic_ref.hpp", "include/boost/atomic/ipc_atomic_flag.hpp", D + "wait_ops_futex.hpp", D + "wait_ops_generic.hpp", D + "core_operations_emulated.hpp"],
  [("interprocess flag", D + "core_operations.hpp"), ("shared futex flag", D + "wait_ops_futex.hpp"), ("rejection", D + "core_operations_emulated.hpp")])

p("A16", "Lock-freedom and native-wait reports match the implementation",
  "Whenever is_always_lock_free, is_lock_free() or a BOOST_ATOMIC_*_LOCK_FREE capability macro says a type is lock-free, no operation on it takes a lock or calls a locking library function, and when they say it is not, operations are the locked ones; the constant, the function and the macro for the same type agree, for objects and references. "
  "The same holds for native wait/notify: when always_has_native_wait_notify, has_native_wait_notify() or the BOOST_ATOMIC_HAS_NATIVE_*_WAIT_NOTIFY macros claim it, waits use the operating system directly on the object.",
  ["configurations", "programs"],
  "all supported types, object kinds, instruction-set options and feature macros on x86-64 with gcc and clang",
  "A test sees one configuration and cannot see locks in code paths it does not run.",
  ["include/boost/atomic/capabilities.hpp", D + "caps_gcc_atomic.hpp", D + "caps_arch_gcc_x86.hpp", D + "wait_capabilities.hpp", D + "wait_caps_futex.hpp", D + "core_operations.hpp", D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp"],
  [("capability macros", "include/boost/atomic/capabilities.hpp"), ("wait capability macros", D + "wait_capabilities.hpp")])

p("A17", "Atomic objects have the promised layout, alignment and initialisation",
  "A lock-free atomic<T> is aligned so that its operations are native and its size is that of its storage; value() exposes exactly the stored value; atomic_ref<T>::required_alignment is sufficient for every operation it performs and references read and write precisely the referenced object's bytes. "
  "Construction from a value stores that value (as constant initialisation for integral, bool, enum, float and double types and for padding-free trivial classes that fill their storage), default construction value-initialises, and objects are neither copyable nor copy-assignable while references copy to the same object.",
  ["programs", "configurations", "inputs"],
  "all supported value types and object kinds, all language levels from C++11 to C++20 and both compilers",
  "The tests check a few types per configuration, in the build's own language level.",
  [D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp", D + "storage_traits.hpp", D + "core_operations.hpp", D + "aligned_variable.hpp", "include/boost/atomic/atomic.hpp", "include/boost/atomic/atomic_ref.hpp"],
  [("storage alignment", D + "storage_traits.hpp"), ("constructors", D + "atomic_impl.hpp")])

p("A18", "Padding never decides a comparison nor leaks into the object",
  "Bits of the stored representation that are not part of the value (bytes past the end of a type stored in a wider integer, the unused bytes of long double and, where the compiler can clear them, structure padding) are always zero in the object after construction, store, exchange, successful compare-exchange or arithmetic, whatever the padding of the arguments. "
  "Hence compare_exchange_strong and wait never fail or return because of padding alone.",
  ["inputs", "programs", "configurations"],
  "all values with all padding contents of padded types; sizes that are not powers of two; long double; every entry point that writes",
  "The tests use one padded type with a few fill patterns.",
  [D + "bitwise_cast.hpp", D + "bitwise_fp_cast.hpp", D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp", D + "type_traits/has_unique_object_representations.hpp"],
  [("padding clearing", D + "bitwise_cast.hpp")])

p("A19", "Memory order preconditions are enforced exactly",
  "With assertions enabled, every legal memory order argument is accepted and every illegal one is rejected: releasing loads and waits, acquiring stores, and compare-exchange failure orders that release or exceed the success order. "
  "With a legal order no internal assertion can fire.",
  ["inputs", "programs"],
  "every operation taking an order, every order value and every (success, failure) pair, every object kind",
  "Tests pass only legal orders and are built with few of them.",
  [D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp", D + "atomic_flag_impl.hpp", D + "memory_order_utils.hpp"],
  [("order assertions", D + "atomic_impl.hpp"), ("failure order comparison", D + "memory_order_utils.hpp")])

p("A20", "The type-level interface admits exactly the supported uses",
  "atomic<> and atomic_ref<> offer arithmetic only on integral (not bool), floating-point and object-pointer types, bitwise operations only on integral (not bool) and enum types, and reject value types that are not trivially copyable or not complete. "
  "Member functions return the documented types, and the interface is usable with every supported value type in every supported language level.",
  ["programs", "configurations"],
  "all value type categories and object kinds, each operation name; C++11 to C++20; gcc and clang",
  "A test that compiles cannot show that another program is rejected.",
  [D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp", D + "classify.hpp", D + "type_traits/is_trivially_copyable.hpp", "include/boost/atomic/atomic.hpp", "include/boost/atomic/atomic_ref.hpp"],
  [("classification", D + "classify.hpp"), ("static assertions", "include/boost/atomic/atomic.hpp")])

p("A21", "Operations do not throw, and a throwing clock leaks nothing",
  "Every operation except timed waits on a clock that may throw is declared noexcept and does not throw; timed waits are noexcept exactly when reading the clock is. "
  "If the user's clock throws inside a timed wait, the exception reaches the caller with the internal lock released and the waiter entry removed.",
  ["programs", "fault_sequences", "configurations"],
  "every operation of every object kind; an exception from the clock at any of its calls",
  "No test uses a throwing clock.",
  [D + "wait_ops_generic.hpp", D + "wait_ops_emulated.hpp", D + "wait_ops_futex.hpp", D + "lock_pool.hpp", D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp"],
  [("noexcept propagation", D + "wait_ops_generic.hpp"), ("scoped release", D + "lock_pool.hpp")])

p("A22", "Fences order memory as requested",
  "atomic_thread_fence with an order stronger than relaxed prevents the compiler and the processor from moving the affected memory accesses across it, a sequentially consistent one including store-load reordering; atomic_signal_fence prevents compiler movement. "
  "A relaxed fence has no effect, and no fence modifies program-visible memory.",
  ["schedules", "programs", "configurations"],
  "all orders, all surrounding programs, all back-ends reachable on x86-64",
  "A missing compiler barrier shows only if the optimiser happens to reorder around it; a missing processor fence only in rare schedules.",
  ["include/boost/atomic/fences.hpp", D + "fence_operations.hpp", D + "fence_ops_gcc_atomic.hpp", D + "fence_arch_ops_gcc_x86.hpp", "src/lock_pool.cpp"],
  [("thread fence", D + "fence_arch_ops_gcc_x86.hpp"), ("signal fence", D + "fence_ops_gcc_atomic.hpp")])

p("A23", "atomic_flag is an atomic boolean",
  "test_and_set atomically sets the flag and returns whether it was set before, clear clears it, test reports it, each with at least the requested ordering; of concurrent test_and_set calls on a clear flag exactly one returns false. "
  "wait returns only when the flag differs from the given value, and a default-constructed flag is clear without dynamic initialisation.",
  ["schedules", "inputs", "configurations"],
  "all interleavings, orders and both flag kinds",
  "The tests check sequences of calls in one thread.",
  [D + "atomic_flag_impl.hpp", "include/boost/atomic/atomic_flag.hpp", "include/boost/atomic/ipc_atomic_flag.hpp"],
  [("flag operations", D + "atomic_flag_impl.hpp")])

p("A24", "Inline assembly declares everything it touches",
  "Each inline assembly block used by an operation tells the compiler all registers, flags and memory it reads or writes, never shares a register between an input still needed and an early result, and operates on exactly the object's width with a lock prefix where it updates shared memory. "
  "So the surrounding program keeps its meaning under any register allocation, inlining and optimisation.",
  ["programs", "configurations"],
  "all calling contexts, register allocations, optimisation levels; gcc and clang constraint variants",
  "A wrong constraint breaks only the caller whose register allocation happens to collide.",
  [D + "core_arch_ops_gcc_x86.hpp", D + "extra_ops_gcc_x86.hpp", D + "fence_arch_ops_gcc_x86.hpp", "src/cpuid.hpp", "include/boost/atomic/thread_pause.hpp"],
  [("asm blocks", D + "extra_ops_gcc_x86.hpp"), ("asm blocks", D + "core_arch_ops_gcc_x86.hpp")])

p("A25", "Atomics and the lock table are usable before any dynamic initialiser runs",
  "Objects of static storage duration initialised with constants, flags included, and the internal lock table are constant-initialised, so operations on them, non-lock-free ones included, are correct when called from any static constructor, in any translation unit order, and until after static destructors. "
  "No operation depends on a lazily or dynamically initialised internal object.",
  ["programs", "configurations", "histories"],
  "all static initialisation orders, shared and static library builds",
  "A test program fixes one initialisation order, and runs after it.",
  ["src/lock_pool.cpp", D + "atomic_impl.hpp", D + "atomic_flag_impl.hpp", D + "once_flag.hpp"],
  [("constant initialisation", "src/lock_pool.cpp")])

p("A26", "Internal locks cannot deadlock and are held only briefly",
  "No operation acquires an internal lock while holding one or blocks while holding one except by first releasing it; apart from reading the user's clock in a timed wait and allocating memory for bookkeeping no foreign code runs under a lock; and every exit from an operation, exceptional ones included, releases the lock it took. "
  "Operations on any set of objects by any set of threads therefore never deadlock on internal locks.",
  ["schedules", "programs", "fault_sequences"],
  "all operations on all objects including several sharing one lock, throwing user clocks",
  "Deadlock needs two objects that hash to one lock and an unlucky schedule.",
  ["src/lock_pool.cpp", D + "lock_pool.hpp", D + "core_operations_emulated.hpp", D + "wait_ops_generic.hpp", D + "wait_ops_emulated.hpp"],
  [("scoped lock", D + "lock_pool.hpp"), ("release before blocking", "src/lock_pool.cpp")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
