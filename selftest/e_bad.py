from edits import bad, good, D

# one or more realistic defects per property, outside the lock pool
AI, AR, AF = D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp", D + "atomic_flag_impl.hpp"
EX, EE, EG = D + "extra_ops_gcc_x86.hpp", D + "extra_ops_emulated.hpp", D + "extra_ops_generic.hpp"
CE, CX, CG = D + "core_operations_emulated.hpp", D + "core_arch_ops_gcc_x86.hpp", D + "core_ops_gcc_atomic.hpp"
BC, BF, ST = D + "bitwise_cast.hpp", D + "bitwise_fp_cast.hpp", D + "storage_traits.hpp"
WG, WF, WE, LPH = D + "wait_ops_generic.hpp", D + "wait_ops_futex.hpp", D + "wait_ops_emulated.hpp", D + "lock_pool.hpp"
# A01
bad("op-a01-negate-two-steps", "A01", (EG, """        storage_type old_val, new_val;
        atomics::detail::non_atomic_load(storage, old_val);
        do
        {
            new_val = atomics::detail::integral_extend< Signed, storage_type >(static_cast< emulated_storage_type >(-old_val));
        }
        while (!base_type::compare_exchange_weak(storage, old_val, new_val, order, memory_order_relaxed));
        return new_val;""", """        storage_type old_val = base_type::load(storage, order);
        storage_type new_val = atomics::detail::integral_extend< Signed, storage_type >(static_cast< emulated_storage_type >(-old_val));
        base_type::store(storage, new_val, order);
        return new_val;"""))
bad("op-a01-opassign-reload", "A01 A02", (AI, "        return bitwise_xor(v);", "        opaque_xor(v); return load();"))
# A02
bad("op-a02-bit-width", "A02", (EG, "static_cast< emulated_storage_type >(static_cast< emulated_storage_type >(1u) << bit_number)", "static_cast< emulated_storage_type >(1u << bit_number)"))
bad("op-a02-add-test-narrow", "A02", (EE, "return !!add(storage, v, order);", "return !!static_cast< unsigned int >(add(storage, v, order));"))
bad("op-a02-enum-bit", "A02", (AR, "return extra_operations::bit_test_and_complement(this->storage(), bit_number, order);", "return extra_operations::bit_test_and_complement(this->storage(), bit_number & 31u, order);"))
# A04
bad("op-a04-int-mul", "A04", (AI, "core_operations::fetch_sub(this->storage(), static_cast< uintptr_storage_type >(v * sizeof(T)), order)", "core_operations::fetch_sub(this->storage(), static_cast< uintptr_storage_type >(static_cast< int >(v) * static_cast< int >(sizeof(T))), order)"))
# A05
bad("op-a05-cas-fail-expected", "A05", (CE, """        if (res)
            s = desired;
        expected = old_val;
""", """        if (res)
            s = desired;
        else if (!(old_val == desired))
            expected = old_val;
"""))
bad("op-a05-storage-compare", "A05", (ST, "        return BOOST_ATOMIC_DETAIL_MEMCMP(data, that.data, Size) == 0;", "        return BOOST_ATOMIC_DETAIL_MEMCMP(data, that.data, Size & ~static_cast< std::size_t >(7u)) == 0;"))
bad("op-a05-load-copy", "A05 A18", (BC, "(FromValueSize < sizeof(unqualified_to_t) ? FromValueSize : sizeof(unqualified_to_t))", "(FromValueSize < sizeof(unqualified_to_t) ? FromValueSize & ~static_cast< std::size_t >(1u) : sizeof(unqualified_to_t))"))
# A06
bad("op-a06-failure-deduced", "A06", (D + "memory_order_utils.hpp", "memory_order_acquire : ", "memory_order_relaxed : "))
bad("op-a06-x86-store", "A06", (CX, "        if (order != memory_order_seq_cst)\n        {\n            fence_before(order);\n            storage = v;", "        if (sizeof(storage_type) == 2u || order != memory_order_seq_cst)\n        {\n            fence_before(order);\n            storage = v;"))
bad("op-a06-gcc-exchange", "A06", (CG, "return __atomic_exchange_n(&storage, v, atomics::detail::convert_memory_order_to_gcc(order));", "return __atomic_exchange_n(&storage, v, order == memory_order_acq_rel ? __ATOMIC_RELEASE : atomics::detail::convert_memory_order_to_gcc(order));"))
# A07 / A08
bad("op-a07-complement-unlocked", "A07", (EE, """        storage_type& s = const_cast< storage_type& >(storage);
        scoped_lock lock(&storage);
        storage_type old_val = s;
        s = static_cast< storage_type >(~old_val);""", """        storage_type& s = const_cast< storage_type& >(storage);
        storage_type old_val = s;
        scoped_lock lock(&storage);
        s = static_cast< storage_type >(~old_val);"""))
bad("op-a08-extra-lock", "A08", (EE, "using scoped_lock = typename base_type::scoped_lock;", "using scoped_lock = lock_pool::scoped_lock< (Size > 4u ? 4u : Size) >;"))
bad("op-a08-wait-lock", "A08", (WE, "lock_pool::scoped_wait_state< base_type::storage_alignment >", "lock_pool::scoped_wait_state< (base_type::storage_alignment > 8u ? 8u : base_type::storage_alignment) >"))
# A10 / A11
bad("op-a10-notify-before", "A10", (WE, "lock_pool::notify_one(lock.get_lock_state(), &storage);", "if (false) lock_pool::notify_one(lock.get_lock_state(), &storage);"))
bad("op-a10-wait-snapshot", "A10", (WG, """            scoped_wait_state wait_state(&storage);
            new_val = base_type::load(storage, order);
            while (new_val == old_val)
            {
                wait_state.wait();
                new_val = base_type::load(storage, order);
            }
        }

        return new_val;""", """            scoped_wait_state wait_state(&storage);
            while (new_val == old_val)
            {
                wait_state.wait();
                new_val = base_type::load(storage, order);
            }
        }

        return new_val;"""))
bad("op-a10-futex-expected", "A10", (WF, "atomics::detail::futex_wait(const_cast< storage_type* >(&storage), old_val, futex_private_flag);", "atomics::detail::futex_wait(const_cast< storage_type* >(&storage), base_type::load(storage, memory_order_relaxed), futex_private_flag);"))
bad("op-a10-enum-ref-order", "A10", (AR, "return atomics::detail::bitwise_cast< value_type >(wait_operations::wait(this->storage(), atomics::detail::bitwise_cast< storage_type >(old_val), order));", "return atomics::detail::bitwise_cast< value_type >(wait_operations::wait(this->storage(), atomics::detail::bitwise_cast< storage_type >(old_val), memory_order_relaxed));"))
bad("op-a11-fallback-now", "A11", (WG, """                now = Clock::now();
                new_val = base_type::load(storage, order);""", """                new_val = base_type::load(storage, order);"""))
bad("op-a11-for-trunc", "A11", (WF, "static_cast< std::int64_t >(now.tv_nsec) + atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();", "static_cast< std::int64_t >(now.tv_nsec) + atomics::detail::chrono::ceil< std::chrono::microseconds >(timeout).count() * 1000;"))
bad("op-a11-tsec", "A11", (D + "chrono.hpp", "            --ts.tv_sec;\n", ""))
# A15
bad("op-a15-private", "A15", (WF, "static constexpr int futex_private_flag = Interprocess ? 0 : BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG;", "static constexpr int futex_private_flag = Interprocess && base_type::is_signed ? 0 : BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG;"))
bad("op-a15-assert-gone", "A15", (CE, """        static_assert(!is_interprocess, "Boost.Atomic: operation invoked on a non-lock-free inter-process atomic object");
        storage_type& s = const_cast< storage_type& >(storage);
        scoped_lock lock(&storage);
        storage_type old_val = s;
        s = v;""", """        storage_type& s = const_cast< storage_type& >(storage);
        scoped_lock lock(&storage);
        storage_type old_val = s;
        s = v;"""))
# A16
bad("op-a16-native-wait", "A16", (WF, "    static constexpr bool always_has_native_wait_notify = true;", "    static constexpr bool always_has_native_wait_notify = !Interprocess;"))
bad("op-a16-ref-size", "A16", (AR, "static constexpr bool value = sizeof(value_type) == sizeof(storage_type) && core_operations::is_always_lock_free;", "static constexpr bool value = sizeof(value_type) == sizeof(storage_type) && core_operations::is_always_lock_free && atomics::detail::alignment_of< value_type >::value * 2u > sizeof(value_type);"))
# A17
bad("op-a17-align", "A17", (ST, "    static constexpr std::size_t native_alignment = atomics::detail::alignment_of< boost::uint128_type >::value;\n    static constexpr std::size_t alignment = 16u;", "    static constexpr std::size_t native_alignment = atomics::detail::alignment_of< boost::uint128_type >::value;\n    static constexpr std::size_t alignment = 8u;"))
bad("op-a17-ref-align", "A17", (AR, """        atomics::detail::alignment_of< value_type >::value <= core_operations::storage_alignment ?
            core_operations::storage_alignment : atomics::detail::alignment_of< value_type >::value;""", """        atomics::detail::alignment_of< value_type >::value;"""))
bad("op-a17-default", "A17", (AI, "BOOST_FORCEINLINE BOOST_ATOMIC_DETAIL_CONSTEXPR_ATOMIC_CTOR explicit base_atomic_generic(value_arg_type v = value_type()) noexcept :\n        base_type(atomics::detail::bitwise_cast< storage_type >(v))", "explicit base_atomic_generic() noexcept {}\n    BOOST_FORCEINLINE BOOST_ATOMIC_DETAIL_CONSTEXPR_ATOMIC_CTOR explicit base_atomic_generic(value_arg_type v) noexcept :\n        base_type(atomics::detail::bitwise_cast< storage_type >(v))"))
bad("op-a17-size", "A17", (ST, "(size >= 9u && size <= 15u ? 16u : size)", "(size >= 9u && size <= 14u ? 16u : size)"))
# A18
bad("op-a18-tail", "A18", (BC, "std::integral_constant< bool, ValueSize < sizeof(To) >()", "std::integral_constant< bool, (ValueSize + 1u < sizeof(To)) >()"))
bad("op-a18-ld", "A18", (BF, "atomics::detail::value_size_of< From >::value == sizeof(From) && atomics::detail::value_size_of< From >::value == sizeof(To)", "sizeof(From) == sizeof(To)"))
# A19
bad("op-a19-store", "A19", (AR, """        BOOST_ASSERT(order != memory_order_consume);
        BOOST_ASSERT(order != memory_order_acquire);
        BOOST_ASSERT(order != memory_order_acq_rel);
""", """        BOOST_ASSERT(order != memory_order_acquire);
        BOOST_ASSERT(order != memory_order_acq_rel);
"""))
# A20
bad("op-a20-ret", "A20", (AI, "    BOOST_FORCEINLINE bool negate_and_test(memory_order", "    BOOST_FORCEINLINE int negate_and_test(memory_order"))
bad("op-a20-bool-arith", "A20", (D + "classify.hpp", "struct classify< volatile void*, false, false, false > { using type = void; };", "struct classify< volatile void*, false, false, false > { using type = void*; };"))
# A21
bad("op-a21-noexcept", "A21", (AI, "    BOOST_FORCEINLINE void opaque_complement(memory_order order = memory_order_seq_cst) volatile noexcept", "    BOOST_FORCEINLINE void opaque_complement(memory_order order = memory_order_seq_cst) volatile"))
bad("op-a21-clock", "A21", (WG, "    ) noexcept(noexcept(Clock::now()))", "    ) noexcept"))
# A22
bad("op-a22-signal", "A22", (D + "fence_ops_gcc_atomic.hpp", "__atomic_signal_fence(atomics::detail::convert_memory_order_to_gcc(order));", "if (order == memory_order_seq_cst) __atomic_signal_fence(__ATOMIC_SEQ_CST);"))
# A23
bad("op-a23-xor", "A23", (AF, "return core_operations::test_and_set(m_storage, order);", "return !!core_operations::fetch_xor(m_storage, 1u, order);"))
bad("op-a23-wait", "A23 A10", (AF, "return !!wait_operations::wait(m_storage, static_cast< storage_type >(old_val), order);", "return wait_operations::wait(m_storage, static_cast< storage_type >(old_val), order) != old_val ? !old_val : true;"))
# A24
bad("op-a24-mem", "A24", (CX, """                : [storage] "=m" (storage)
                : [value] "x" (value)
                : "memory\"""", """                :
                : [value] "x" (value), [storage] "m" (storage)
                : """))
# A25
bad("op-a25-ctor", "A25 A17", (AI, "    BOOST_FORCEINLINE constexpr explicit base_atomic_common(storage_type v) noexcept : m_storage(v)", "    BOOST_FORCEINLINE explicit base_atomic_common(storage_type v) noexcept : m_storage(v)"))
# A26
bad("op-a26-order", "A26", (LPH, """    ~scoped_wait_state() noexcept
    {
        lock_pool::free_wait_state(this->get_lock_state(), m_wait_state);""", """    ~scoped_wait_state() noexcept
    {
        scoped_lock< Alignment > lock(&m_wait_state);
        lock_pool::free_wait_state(this->get_lock_state(), m_wait_state);"""))
bad("op-a26-leak", "A26 A07", (EE, """        storage_type new_val = s;
        new_val += v;
        s = new_val;
        return new_val;""", """        storage_type new_val = s;
        new_val += v;
        s = new_val;
        if (!new_val)
            return load_again(storage);
        return new_val;
    }

    static storage_type load_again(storage_type volatile& storage) noexcept
    {
        return base_type::load(storage, memory_order_relaxed);"""))
