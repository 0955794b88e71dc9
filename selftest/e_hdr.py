from edits import bad, good, D

# behaviour-preserving rewrites of the headers
OPS = "A01 A02 A03 A05 A06 A07 A18"
WAITS = "A10 A11 A21 A26 A16 A15"
EMU = "A02 A03 A05 A07 A08 A26"
G = D + "extra_ops_generic.hpp"
LOOP = """        do
        {
            new_val = atomics::detail::integral_extend< Signed, storage_type >(static_cast< emulated_storage_type >(old_val - v));
        }
        while (!base_type::compare_exchange_weak(storage, old_val, new_val, order, memory_order_relaxed));
        return new_val;"""
good("hdr-cas-for", OPS, (G, LOOP, """        for (;;)
        {
            new_val = atomics::detail::integral_extend< Signed, storage_type >(static_cast< emulated_storage_type >(old_val - v));
            if (base_type::compare_exchange_weak(storage, old_val, new_val, order, memory_order_relaxed))
                break;
        }
        return new_val;"""))
good("hdr-cas-strong", OPS, (G, LOOP, LOOP.replace("weak", "strong")))
good("hdr-cas-seed-load", OPS, (G, """        storage_type old_val, new_val;
        atomics::detail::non_atomic_load(storage, old_val);
        do
        {
            new_val = atomics::detail::integral_extend< Signed, storage_type >(static_cast< emulated_storage_type >(old_val - v));""",
     """        storage_type new_val;
        storage_type old_val = base_type::load(storage, memory_order_relaxed);
        do
        {
            new_val = atomics::detail::integral_extend< Signed, storage_type >(static_cast< emulated_storage_type >(old_val - v));"""))
good("hdr-cas-lambda", OPS, (G, """        storage_type old_val, new_val;
        atomics::detail::non_atomic_load(storage, old_val);
        do
        {
            new_val = atomics::detail::integral_extend< Signed, storage_type >(static_cast< emulated_storage_type >(old_val - v));
        }
        while (!base_type::compare_exchange_weak(storage, old_val, new_val, order, memory_order_relaxed));
        return new_val;""", """        storage_type old_val;
        atomics::detail::non_atomic_load(storage, old_val);
        const auto difference = [&]() noexcept { return atomics::detail::integral_extend< Signed, storage_type >(static_cast< emulated_storage_type >(old_val - v)); };
        storage_type new_val = difference();
        while (!base_type::compare_exchange_weak(storage, old_val, new_val, order, memory_order_relaxed))
            new_val = difference();
        return new_val;"""))
good("hdr-cas-zero-guess", OPS, (G, """        storage_type old_val, new_val;
        atomics::detail::non_atomic_load(storage, old_val);
        do
        {
            new_val = atomics::detail::integral_extend< Signed, storage_type >(static_cast< emulated_storage_type >(old_val - v));""",
     """        storage_type old_val = storage_type(0), new_val;
        do
        {
            new_val = atomics::detail::integral_extend< Signed, storage_type >(static_cast< emulated_storage_type >(old_val - v));"""))
good("hdr-fp-loop", "A03 A01 A06 A18", (D + "fp_ops_generic.hpp", """            old_val = atomics::detail::bitwise_fp_cast< value_type >(old_storage);
            new_val = old_val - v;
            new_storage = atomics::detail::bitwise_fp_cast< storage_type >(new_val);
        }
        while (!base_type::compare_exchange_weak(storage, old_storage, new_storage, order, memory_order_relaxed));
        return old_val;""", """            old_val = atomics::detail::bitwise_fp_cast< value_type >(old_storage);
            new_val = old_val - v;
            new_storage = atomics::detail::bitwise_fp_cast< storage_type >(new_val);
            if (base_type::compare_exchange_strong(storage, old_storage, new_storage, order, memory_order_relaxed))
                return old_val;
        }
        while (true);"""))
CE = D + "core_operations_emulated.hpp"
good("hdr-emu-helper", EMU, (CE, """        storage_type& s = const_cast< storage_type& >(storage);
        scoped_lock lock(&storage);
        storage_type old_val = s;
        s += v;
        return old_val;
    }
""", """        return modify(storage, [v](storage_type x) noexcept { x += v; return x; });
    }

    template< typename F >
    static storage_type modify(storage_type volatile& storage, F f) noexcept
    {
        scoped_lock lock(&storage);
        storage_type& s = const_cast< storage_type& >(storage);
        const storage_type old_val = s;
        s = f(old_val);
        return old_val;
    }
"""))
good("hdr-emu-forward-weak", EMU, (CE, """        // Note: This function is the exact copy of compare_exchange_strong. The reason we're not just forwarding the call
        // is that MSVC-12 ICEs in this case.
        static_assert(!is_interprocess, "Boost.Atomic: operation invoked on a non-lock-free inter-process atomic object");
        storage_type& s = const_cast< storage_type& >(storage);
        scoped_lock lock(&storage);
        storage_type old_val = s;
        const bool res = old_val == expected;
        if (res)
            s = desired;
        expected = old_val;

        return res;
""", """        return compare_exchange_strong(storage, expected, desired, memory_order_seq_cst, memory_order_seq_cst);
"""))
good("hdr-emu-cas-early", EMU, (CE, """        storage_type old_val = s;
        const bool res = old_val == expected;
        if (res)
            s = desired;
        expected = old_val;

        return res;""", """        if (s == expected)
        {
            s = desired;
            return true;
        }
        expected = s;
        return false;"""))
good("hdr-emu-explicit-lock", EMU, (CE, """        storage_type& s = const_cast< storage_type& >(storage);
        scoped_lock lock(&storage);
        storage_type old_val = s;
        s = v;
        return old_val;""", """        void* const lock = lock_pool::short_lock(lock_pool::hash_ptr< storage_alignment >(&storage));
        storage_type& s = const_cast< storage_type& >(storage);
        storage_type old_val = s;
        s = v;
        lock_pool::unlock(lock);
        return old_val;"""))
good("hdr-emu-long-lock", EMU, (CE, "using scoped_lock = lock_pool::scoped_lock< storage_alignment >;", "using scoped_lock = lock_pool::scoped_lock< storage_alignment, true >;"))
good("hdr-emu-memcpy-store", EMU, (CE, "const_cast< storage_type& >(storage) = v;", "BOOST_ATOMIC_DETAIL_MEMCPY(const_cast< storage_type* >(&storage), &v, sizeof(v));"),
     (CE, "#include <boost/atomic/detail/lock_pool.hpp>", "#include <boost/atomic/detail/lock_pool.hpp>\n#include <boost/atomic/detail/string_ops.hpp>"))
LPH = D + "lock_pool.hpp"
good("hdr-hash-shift", "A08 A07 A10 A26", (LPH, """    atomics::detail::uintptr_t h = ptr / Alignment;
""", """    atomics::detail::uintptr_t h = ptr;
    for (std::size_t n = Alignment; n > 1u; n >>= 1u)
        h >>= 1u;
"""))
good("hdr-hash-other", "A08 A07 A10 A26", (LPH, """    return h;
}

template< std::size_t Alignment, bool LongLock = false >""", """    return h ^ (ptr >> 20u);
}

template< std::size_t Alignment, bool LongLock = false >"""))
good("hdr-lock-init", "A07 A08 A10 A26", (LPH, """    explicit scoped_lock(const volatile void* addr) noexcept
    {
        atomics::detail::uintptr_t h = lock_pool::hash_ptr< Alignment >(addr);
        BOOST_IF_CONSTEXPR (!LongLock)
            m_lock = lock_pool::short_lock(h);
        else
            m_lock = lock_pool::long_lock(h);
    }
""", """    explicit scoped_lock(const volatile void* addr) noexcept :
        m_lock(acquire(lock_pool::hash_ptr< Alignment >(addr), std::integral_constant< bool, LongLock >()))
    {
    }

    static void* acquire(atomics::detail::uintptr_t h, std::true_type) noexcept { return lock_pool::long_lock(h); }
    static void* acquire(atomics::detail::uintptr_t h, std::false_type) noexcept { return lock_pool::short_lock(h); }
"""), (LPH, "#include <chrono>\n", "#include <chrono>\n#include <type_traits>\n"))
WG = D + "wait_ops_generic.hpp"
good("hdr-wait-loop", WAITS, (WG, """            scoped_wait_state wait_state(&storage);
            new_val = base_type::load(storage, order);
            while (new_val == old_val)
            {
                wait_state.wait();
                new_val = base_type::load(storage, order);
            }
        }

        return new_val;""", """            scoped_wait_state wait_state(&storage);
            for (;;)
            {
                new_val = base_type::load(storage, order);
                if (new_val != old_val)
                    break;
                wait_state.wait();
            }
        }

        return new_val;"""))
good("hdr-wait-early-return", WAITS, (WG, """        storage_type new_val = base_type::load(storage, order);
        if (new_val == old_val)
        {
            scoped_wait_state wait_state(&storage);
            new_val = base_type::load(storage, order);
            while (new_val == old_val)
            {
                wait_state.wait();
                new_val = base_type::load(storage, order);
            }
        }

        return new_val;""", """        {
            const storage_type first = base_type::load(storage, order);
            if (first != old_val)
                return first;
        }

        scoped_wait_state wait_state(&storage);
        storage_type new_val;
        while ((new_val = base_type::load(storage, order)) == old_val)
            wait_state.wait();

        return new_val;"""))
good("hdr-wait-no-fast-path", WAITS, (WG, """        storage_type new_val = base_type::load(storage, order);
        if (new_val == old_val)
        {
            scoped_wait_state wait_state(&storage);
            new_val = base_type::load(storage, order);
            while (new_val == old_val)
            {
                wait_state.wait();
                new_val = base_type::load(storage, order);
            }
        }

        return new_val;""", """        scoped_wait_state wait_state(&storage);
        storage_type new_val = base_type::load(storage, order);
        while (new_val == old_val)
        {
            wait_state.wait();
            new_val = base_type::load(storage, order);
        }

        return new_val;"""))
good("hdr-until-no-goto", WAITS, (WG, """                    if (wait_timed_out)
                        goto timeout_expired;
                }
            }
            else
            {
            timeout_expired:
                timed_out = new_val == old_val;
            }""", """                    if (wait_timed_out)
                    {
                        timed_out = new_val == old_val;
                        break;
                    }
                }
            }
            else
            {
                timed_out = new_val == old_val;
            }"""))
good("hdr-until-fallback-order", WAITS, (WG, """                now = Clock::now();
                new_val = base_type::load(storage, order);""", """                new_val = base_type::load(storage, order);
                if (new_val != old_val)
                    break;
                now = Clock::now();"""))
WF = D + "wait_ops_futex.hpp"
good("hdr-futex-loop", WAITS, (WF, """        storage_type new_val = base_type::load(storage, order);
        while (new_val == old_val)
        {
            atomics::detail::futex_wait(const_cast< storage_type* >(&storage), old_val, futex_private_flag);
            new_val = base_type::load(storage, order);
        }

        return new_val;""", """        for (;;)
        {
            const storage_type new_val = base_type::load(storage, order);
            if (new_val != old_val)
                return new_val;
            atomics::detail::futex_wait(const_cast< storage_type* >(&storage), old_val, futex_private_flag);
        }"""))
good("hdr-futex-spin", WAITS, (WF, """        storage_type new_val = base_type::load(storage, order);
        while (new_val == old_val)
        {
            atomics::detail::futex_wait(""", """        storage_type new_val = base_type::load(storage, order);
        for (unsigned int i = 0u; i < 8u && new_val == old_val; ++i)
            new_val = base_type::load(storage, order);
        while (new_val == old_val)
        {
            atomics::detail::futex_wait("""))
good("hdr-futex-errno", WAITS, (WF, """                    err = errno;
                    if (err == ETIMEDOUT)
                    {""", """                    err = errno;
                    if (err == EINTR)
                    {
                        new_val = base_type::load(storage, order);
                        continue;
                    }
                    if (err == ETIMEDOUT)
                    {"""))
good("hdr-futex-wake-few", WAITS, (D + "wait_ops_futex.hpp", """        atomics::detail::futex_signal(const_cast< storage_type* >(&storage), futex_private_flag);""",
     """        atomics::detail::futex_broadcast(const_cast< storage_type* >(&storage), futex_private_flag);"""))
good("hdr-futex-for-now-helper", WAITS, (WF, """    template< typename Rep, typename Period >
    static BOOST_FORCEINLINE storage_type wait_for""", """    static BOOST_FORCEINLINE bool split_seconds(std::int64_t base_sec, std::int64_t nsec, futex_timespec& ts) noexcept
    {
        const std::int64_t sec = base_sec + nsec / 1000000000;
        if (sec > (std::numeric_limits< decltype(futex_timespec::tv_sec) >::max)())
            return false;
        ts.tv_sec = static_cast< decltype(ts.tv_sec) >(sec);
        ts.tv_nsec = static_cast< decltype(ts.tv_nsec) >(nsec % 1000000000);
        return true;
    }

    template< typename Rep, typename Period >
    static BOOST_FORCEINLINE storage_type wait_for"""), (WF, """                const std::int64_t sec = static_cast< std::int64_t >(now.tv_sec) + nsec / 1000000000;
                if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(futex_timespec::tv_sec) >::max)()))
                {
                    futex_timespec ts{};
                    ts.tv_sec = static_cast< decltype(ts.tv_sec) >(sec);
                    ts.tv_nsec = static_cast< decltype(ts.tv_nsec) >(nsec % 1000000000);

                    storage_type""", """                futex_timespec ts{};
                if (BOOST_LIKELY(split_seconds(now.tv_sec, nsec, ts)))
                {
                    storage_type"""))
AI = D + "atomic_impl.hpp"
good("hdr-int-plus-assign", "A01 A02 A06 A20 A21", (AI, """        return add(v);""", """        const value_type old_val = fetch_add(v, memory_order_seq_cst);
        return static_cast< value_type >(old_val + v);"""))
good("hdr-wait-for-reorder", "A10 A11 A21", (AI, """        bool timed_out = false;
        storage_type new_value = wait_operations::wait_for(this->storage(), atomics::detail::bitwise_cast< storage_type >(old_val), timeout, order, timed_out);
        return wait_result< value_type >(atomics::detail::bitwise_cast< value_type >(new_value), timed_out);""",
     """        storage_type old_storage = atomics::detail::bitwise_cast< storage_type >(old_val);
        bool timed_out;
        timed_out = false;
        const storage_type new_value = wait_operations::wait_for(this->storage(), old_storage, timeout, order, timed_out);
        value_type result = atomics::detail::bitwise_cast< value_type >(new_value);
        return wait_result< value_type >(result, timed_out);"""))
good("hdr-cas-local", "A05 A06 A18 A01 A07", (AI, """        storage_type old_value = atomics::detail::bitwise_cast< storage_type >(expected);
        const bool res = core_operations::compare_exchange_strong(
            this->storage(), old_value, atomics::detail::bitwise_cast< storage_type >(desired), success_order, failure_order);
        expected = atomics::detail::bitwise_cast< value_type >(old_value);
        return res;""", """        const storage_type new_value = atomics::detail::bitwise_cast< storage_type >(desired);
        storage_type old_value = atomics::detail::bitwise_cast< storage_type >(expected);
        if (core_operations::compare_exchange_strong(this->storage(), old_value, new_value, success_order, failure_order))
            return true;
        expected = atomics::detail::bitwise_cast< value_type >(old_value);
        return false;"""))
good("hdr-ptr-sub-as-add", "A04 A01 A06", (AI, """core_operations::fetch_sub(this->storage(), static_cast< uintptr_storage_type >(v * sizeof(T)), order)""",
     """core_operations::fetch_add(this->storage(), static_cast< uintptr_storage_type >(0) - static_cast< uintptr_storage_type >(v * sizeof(T)), order)"""))
good("hdr-ceil-branch", WAITS, (D + "chrono.hpp", """    return To(static_cast< typename To::rep >((static_cast< common_rep >(from.count()) * conv_ratio::num) / conv_ratio::den +
        static_cast< common_rep >(((static_cast< common_rep >(from.count()) * conv_ratio::num) % conv_ratio::den) > static_cast< common_rep >(0))));""",
     """    return (static_cast< common_rep >(from.count()) * conv_ratio::num) % conv_ratio::den > static_cast< common_rep >(0) ?
        To(static_cast< typename To::rep >((static_cast< common_rep >(from.count()) * conv_ratio::num) / conv_ratio::den + static_cast< common_rep >(1))) :
        To(static_cast< typename To::rep >((static_cast< common_rep >(from.count()) * conv_ratio::num) / conv_ratio::den));"""))
good("hdr-futex-h-helper", WAITS + " A09 A12", (D + "futex.hpp", """    return futex_invoke(pval, FUTEX_WAKE | flags, count);""", """    const int op = flags | FUTEX_WAKE;
    const int woken = futex_invoke(pval, op, count);
    return woken;"""), (D + "futex.hpp", """    return futex_signal(pval, flags, (~static_cast< unsigned int >(0u)) >> 1u);""", """    return futex_invoke(pval, flags | FUTEX_WAKE, static_cast< unsigned int >(-1) / 2u);"""))
