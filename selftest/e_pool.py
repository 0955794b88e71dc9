from edits import bad, good, lp, LP, D

POOL = "A09 A12 A13"
# ---- A09
bad("unlock-no-wake", "A09", lp("if ((prev_state & mutex_bits::contended) != 0u)\n        {\n            int woken", "if ((prev_state & mutex_bits::contended) != 0u && (prev_state & mutex_bits::counter_one) == 0u)\n        {\n            int woken"))
bad("unlock-wake-if-now-unlocked", "A09", lp("if ((prev_state & mutex_bits::contended) != 0u)\n        {\n            int woken", "if ((prev_state & mutex_bits::contended) != 0u && futex_operations::load(m_mutex, boost::memory_order_relaxed) == new_state)\n        {\n            int woken"))
bad("clear-contended-always", "A09", lp("            if (woken_count == 0)\n", "            if (woken_count <= 1)\n"))
bad("clear-contended-by-and", "A09", lp("                prev_state = new_state;\n                new_state &= ~mutex_bits::contended;\n                futex_operations::compare_exchange_strong(m_mutex, prev_state, new_state, boost::memory_order_relaxed, boost::memory_order_relaxed);", "                futex_extra_operations::opaque_and(m_mutex, ~mutex_bits::contended, boost::memory_order_relaxed);"))
bad("aba-no-counter", "A09", lp("(prev_state & (~mutex_bits::locked)) + mutex_bits::counter_one", "(prev_state & (~mutex_bits::locked))"))
bad("unlock-relaxed", "A09", lp("m_mutex, prev_state, new_state, boost::memory_order_release, boost", "m_mutex, prev_state, new_state, boost::memory_order_relaxed, boost"))
bad("slow-lock-relaxed", "A09", lp("compare_exchange_weak(m_mutex, prev_state, new_state, boost::memory_order_acquire", "compare_exchange_weak(m_mutex, prev_state, new_state, boost::memory_order_relaxed"))
bad("slow-lock-drops-contended", "A09", lp("futex_operations::storage_type new_state = prev_state | mutex_bits::locked;\n                if (BOOST_LIKELY(futex_operations::compare_exchange_weak", "futex_operations::storage_type new_state = (prev_state & ~mutex_bits::contended) | mutex_bits::locked;\n                if (BOOST_LIKELY(futex_operations::compare_exchange_weak"))
bad("sleep-expects-prev", "A09", lp("futex_wait(&m_mutex, new_state,", "futex_wait(&m_mutex, prev_state,"))
bad("unlock-store", "A09", lp("            if (BOOST_LIKELY(futex_operations::compare_exchange_weak(m_mutex, prev_state, new_state, boost::memory_order_release, boost::memory_order_relaxed)))\n                break;", "            futex_operations::store(m_mutex, new_state, boost::memory_order_release);\n            break;"))
bad("mutex-wake-wrong-flag", "A09", lp("futex_signal(&m_mutex, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG)", "futex_signal(&m_mutex, 0)"))
bad("wake-before-release", "A09", lp("        futex_operations::storage_type new_state;\n        while (true)\n        {\n            new_state =", "        futex_operations::storage_type new_state;\n        int woken_count = 0;\n        if ((prev_state & mutex_bits::contended) != 0u)\n            woken_count = atomics::detail::futex_signal(&m_mutex, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG);\n        while (true)\n        {\n            new_state ="),
    lp("            int woken_count = atomics::detail::futex_signal(&m_mutex, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG);\n            if (woken_count", "            if (woken_count"))
bad("lock-second-cas-order", "A09", lp("compare_exchange_strong(m_mutex, prev_state, new_state, boost::memory_order_acquire", "compare_exchange_strong(m_mutex, prev_state, new_state, boost::memory_order_release"))
# ---- A12
bad("cond-read-after-unlock", "A12", lp("    const futex_operations::storage_type prev_cond = futex_operations::load(m_cond, boost::memory_order_relaxed);\n    ++m_waiter_count;\n\n    state.unlock();\n\n    do\n", "    ++m_waiter_count;\n\n    state.unlock();\n\n    const futex_operations::storage_type prev_cond = futex_operations::load(m_cond, boost::memory_order_relaxed);\n    do\n"))
bad("count-after-unlock", "A12", lp("    ++m_waiter_count;\n\n    state.unlock();\n\n    do\n", "    state.unlock();\n\n    ++m_waiter_count;\n\n    do\n"))
bad("notify-no-bump", "A12", lp("inline void wait_state::notify_one(lock_state& state) noexcept\n{\n    futex_extra_operations::opaque_add(m_cond, 1u, boost::memory_order_relaxed);\n\n    if (BOOST_LIKELY(m_waiter_count > 0u))\n    {", "inline void wait_state::notify_one(lock_state& state) noexcept\n{\n    if (BOOST_LIKELY(m_waiter_count > 0u))\n    {"))
bad("notify-bump-after-requeue", "A12", lp("{\n    futex_extra_operations::opaque_add(m_cond, 1u, boost::memory_order_relaxed);\n\n    if (BOOST_LIKELY(m_waiter_count > 0u))\n    {\n        // Move blocked threads", "{\n    if (BOOST_LIKELY(m_waiter_count > 0u))\n    {\n        // Move blocked threads"), lp("FUTEX_PRIVATE_FLAG, 0u);\n        futex_extra_operations::opaque_or(state.m_mutex, mutex_bits::contended, boost::memory_order_relaxed);\n    }\n}", "FUTEX_PRIVATE_FLAG, 0u);\n        futex_extra_operations::opaque_or(state.m_mutex, mutex_bits::contended, boost::memory_order_relaxed);\n    }\n    futex_extra_operations::opaque_add(m_cond, 1u, boost::memory_order_relaxed);\n}"))
bad("notify-all-requeues-one", "A12", lp("FUTEX_PRIVATE_FLAG, 0u);\n", "FUTEX_PRIVATE_FLAG, 0u, 1u);\n"))
bad("notify-all-if-more-than-one", "A12", lp("    if (BOOST_LIKELY(m_waiter_count > 0u))\n    {\n        // Move blocked threads", "    if (BOOST_LIKELY(m_waiter_count > 1u))\n    {\n        // Move blocked threads"))
bad("requeue-no-mark", "A12", lp("FUTEX_PRIVATE_FLAG, 0u, 1u);\n        futex_extra_operations::opaque_or(state.m_mutex, mutex_bits::contended, boost::memory_order_relaxed);", "FUTEX_PRIVATE_FLAG, 0u, 1u);"))
bad("wait-no-eintr-retry", "A12", lp("            err = errno;\n            if (BOOST_LIKELY(err != EINTR))\n                break;\n        }\n    }\n    while (futex_operations::load(m_cond, boost::memory_order_relaxed) == prev_cond);\n\n    state.long_lock();\n\n    --m", "            err = errno;\n            if (BOOST_LIKELY(err != EINTR))\n                break;\n        }\n    }\n    while (futex_operations::load(m_cond, boost::memory_order_relaxed) != prev_cond);\n\n    state.long_lock();\n\n    --m"))
bad("until-any-error-timeout", "A12", lp("timed_out = err == ETIMEDOUT;\n                    break;", "timed_out = true;\n                    break;"))
bad("for-any-error-timeout", "A12", lp("        err = errno;\n        timed_out = err == ETIMEDOUT;\n", "        timed_out = true;\n"))
bad("until-realtime-flag-lost", "A12", lp("        if (clock_id == CLOCK_REALTIME)\n            flags |=", "        if (clock_id == CLOCK_MONOTONIC)\n            flags |="))
bad("until-nsec-not-recomputed", "A12", lp("                BOOST_VERIFY(clock_gettime(clock_id, &now) == 0);\n            }\n            while", "            }\n            while"))
bad("for-mod-wrong", "A12", lp("static_cast< decltype(ts.tv_nsec) >(rel_timeout.count() % 1000000000)", "static_cast< decltype(ts.tv_nsec) >(rel_timeout.count() % 1000000)"))
bad("waiter-count-not-decremented", "A12", lp("    state.long_lock();\n\n    --m_waiter_count;\n\n    return timed_out;\n}\n\n//! Wakes", "    state.long_lock();\n\n    if (!timed_out)\n        --m_waiter_count;\n\n    return timed_out;\n}\n\n//! Wakes"))
bad("wait-fallback-no-unlock", "A12 A26", lp("        // A conforming wait operation must unlock and lock the mutex to allow a notify to complete\n        ls->unlock();\n        atomics::detail::wait_some();\n        ls->long_lock();\n    }\n}\n\n#if", "        atomics::detail::wait_some();\n    }\n}\n\n#if"))
bad("wait-until-fallback-ge", "A12", lp("ts.tv_nsec >= abs_timeout.tv_nsec", "ts.tv_nsec <= abs_timeout.tv_nsec"))
# ---- A13
bad("erase-index-not-updated", "A13", lp("        last_w->m_index = index;\n", ""))
bad("erase-w-index-not-updated", "A13", lp("        w->m_index = last_index;\n", ""))
bad("erase-no-swap-spare", "A13", lp("        pw[last_index] = w;\n", ""))
bad("erase-size-kept", "A13", lp("    --m_header->size;\n\n    if", "    if (index == last_index)\n        --m_header->size;\n\n    if"))
bad("erase-wrong-last", "A13", lp("std::size_t last_index = m_header->size - 1u;", "std::size_t last_index = m_header->capacity - 1u;"))
bad("grow-copy-size-only", "A13", lp("std::memcpy(w, old_w, old_header->capacity * sizeof(wait_state*)); // copy spare wait state pointers\n        std::memset(w + old_header->capacity, 0, (new_capacity - old_header->capacity)", "std::memcpy(w, old_w, (old_header->capacity - 1u) * sizeof(wait_state*));\n        std::memset(w + old_header->capacity - 1u, 0, (new_capacity - old_header->capacity + 1u)"))
bad("grow-capacity-not-updated", "A13", lp("    h->capacity = new_capacity;\n", "    h->capacity = old_header ? old_header->capacity * 4u : new_capacity;\n"))
bad("grow-keep-old-header", "A13", lp("            boost::alignment::aligned_free(static_cast< void* >(m_header));\n            m_header = new_header;\n", "            m_header = new_header;\n            boost::alignment::aligned_free(static_cast< void* >(m_header));\n"))
bad("grow-when-past", "A13", lp("if (BOOST_UNLIKELY(m_header->size == m_header->capacity))", "if (BOOST_UNLIKELY(m_header->size > m_header->capacity))"))
bad("grow-free-before-check", "A13", lp("            if (BOOST_UNLIKELY(new_header == nullptr))\n                return nullptr;\n            boost::alignment::aligned_free(static_cast< void* >(m_header));", "            boost::alignment::aligned_free(static_cast< void* >(m_header));\n            if (BOOST_UNLIKELY(new_header == nullptr))\n                return nullptr;"))
bad("grow-null-unchecked", "A13", lp("            if (BOOST_UNLIKELY(new_header == nullptr))\n                return nullptr;\n", ""))
bad("buffer-too-small", "A13", lp("entries_offset + new_capacity * sizeof(void*) * 2u", "entries_offset + new_capacity * sizeof(void*) + 8u * sizeof(void*)"))
bad("free-spare-all", "A13", lp("for (std::size_t i = m_header->size, n", "for (std::size_t i = m_header->size > 0u ? m_header->size - 1u : 0u, n"))
bad("free-spare-past", "A13", lp("i < n; ++i)\n        {\n            wait_state* w = ws[i];", "i <= n; ++i)\n        {\n            wait_state* w = ws[i];"))
bad("free-spare-dangling", "A13", lp("            delete w;\n            ws[i] = nullptr;", "            delete w;"))
bad("free-spare-header-kept", "A13", lp("            boost::alignment::aligned_free(static_cast< void* >(m_header));\n            m_header = nullptr;\n        }", "            boost::alignment::aligned_free(static_cast< void* >(m_header));\n        }"))
bad("free-spare-busy-table", "A13", lp("        if (m_header->size == 0u)\n        {\n            boost::alignment", "        if (m_header->size <= 1u)\n        {\n            boost::alignment"))
bad("alloc-no-size-inc", "A13", lp("    ++m_header->size;\n\n    return w;", "    if (index + 1u < m_header->capacity)\n        ++m_header->size;\n\n    return w;"))
bad("alloc-addr-wrong-slot", "A13", lp("get_atomic_pointers()[index] = addr;", "get_atomic_pointers()[index / 2u] = addr;"))
bad("alloc-throwing-new", "A13", lp("new (std::nothrow) wait_state(index)", "new wait_state(index)"))
bad("alloc-ref-not-counted", "A13", lp("    if (BOOST_LIKELY(ws != nullptr))\n        ++ws->m_ref_count;", "    if (BOOST_LIKELY(ws != nullptr) && ws->m_ref_count == 0u)\n        ++ws->m_ref_count;"))
bad("free-ref-early", "A13", lp("if (--ws->m_ref_count == 0u)", "if (--ws->m_ref_count <= 1u)"))
bad("free-ref-test-before", "A13", lp("if (--ws->m_ref_count == 0u)", "if (ws->m_ref_count-- == 0u)"))
bad("alloc-state-wrong-index", "A13", lp("new (std::nothrow) wait_state(index)", "new (std::nothrow) wait_state(index + 1u)"))
bad("cleanup-unlocked", "A13 A09", lp("        state.long_lock();\n        state.m_wait_states.m_free_memory = true;\n        state.m_wait_states.free_spare();\n        state.unlock();", "        state.m_wait_states.m_free_memory = true;\n        state.m_wait_states.free_spare();"))
bad("cleanup-twice-registered", "A13", lp("        if (once_flag_operations::exchange(g_pool_cleanup_registered.m_flag, 1u, boost::memory_order_relaxed) == 0u)\n            std::atexit", "        once_flag_operations::exchange(g_pool_cleanup_registered.m_flag, 1u, boost::memory_order_relaxed);\n            std::atexit"))
bad("uninit-new-table", "A13", lp("        std::memset(p, 0, new_buffer_size);", "        std::memset(p, 0, new_buffer_size / 2u);"))
# ---- A08
bad("index-off-by-one", "A08", lp("return h & (lock_pool_size - 1u);", "return h & lock_pool_size;"))
bad("index-mod-large", "A08", lp("return h & (lock_pool_size - 1u);", "return h % (lock_pool_size + 1u);"))
bad("short-long-differ", "A08", lp("BOOST_ATOMIC_DECL void* long_lock(atomics::detail::uintptr_t h) noexcept\n{\n    lock_state& ls = g_lock_pool[get_lock_index(h)].state;", "BOOST_ATOMIC_DECL void* long_lock(atomics::detail::uintptr_t h) noexcept\n{\n    lock_state& ls = g_lock_pool[get_lock_index(h >> 1u)].state;"))

# ---- behaviour kept
ALLP = "A08 A09 A12 A13"
good("unlock-helper", ALLP, lp("    //! Unlocks the mutex\n    void unlock() noexcept\n    {\n        futex_operations::storage_type prev_state = futex_operations::load(m_mutex, boost::memory_order_relaxed);\n        futex_operations::storage_type new_state;\n        while (true)\n        {\n            new_state = (prev_state & (~mutex_bits::locked)) + mutex_bits::counter_one;\n            if (BOOST_LIKELY(futex_operations::compare_exchange_weak(m_mutex, prev_state, new_state, boost::memory_order_release, boost::memory_order_relaxed)))\n                break;\n        }\n",
   "    static futex_operations::storage_type unlocked(futex_operations::storage_type s) noexcept { return (s & (~mutex_bits::locked)) + mutex_bits::counter_one; }\n    //! Unlocks the mutex\n    void unlock() noexcept\n    {\n        futex_operations::storage_type prev_state = futex_operations::load(m_mutex, boost::memory_order_relaxed);\n        futex_operations::storage_type new_state;\n        do { new_state = unlocked(prev_state); }\n        while (!futex_operations::compare_exchange_weak(m_mutex, prev_state, new_state, boost::memory_order_release, boost::memory_order_relaxed));\n"))
good("spin-count", ALLP, lp("for (unsigned int i = 0u; i < 10u; ++i)", "for (unsigned int i = 20u; i > 0u; --i)"))
good("no-spin", ALLP, lp("for (unsigned int i = 0u; i < 10u; ++i)", "for (unsigned int i = 0u; i < 1u; ++i)"))
good("always-signal", ALLP, lp("        if ((prev_state & mutex_bits::contended) != 0u)\n        {\n            int woken_count = atomics::detail::futex_signal(&m_mutex, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG);\n            if (woken_count == 0)", "        if ((prev_state & mutex_bits::contended) == 0u)\n            return;\n        {\n            const int woken_count = atomics::detail::futex_signal(&m_mutex, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG);\n            if (woken_count < 1)"))
good("wake-all-on-unlock", ALLP, lp("futex_signal(&m_mutex, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG)", "futex_broadcast(&m_mutex, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG)"))
good("keep-contended", ALLP, lp("            if (woken_count == 0)\n            {\n                prev_state = new_state;\n                new_state &= ~mutex_bits::contended;\n                futex_operations::compare_exchange_strong(m_mutex, prev_state, new_state, boost::memory_order_relaxed, boost::memory_order_relaxed);\n            }\n", "            (void)woken_count;\n"))
good("wait-while-loop", ALLP, lp("    do\n    {\n        int err = atomics::detail::futex_wait(&m_cond, prev_cond, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG);\n        if (err < 0)\n        {\n            err = errno;\n            if (BOOST_LIKELY(err != EINTR))\n                break;\n        }\n    }\n    while (futex_operations::load(m_cond, boost::memory_order_relaxed) == prev_cond);", "    for (;;)\n    {\n        int err = atomics::detail::futex_wait(&m_cond, prev_cond, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG);\n        if (err < 0 && errno != EINTR)\n            break;\n        if (futex_operations::load(m_cond, boost::memory_order_relaxed) != prev_cond)\n            break;\n    }"))
good("notify-helper", ALLP, lp("inline void wait_state::notify_all(lock_state& state) noexcept\n{\n    futex_extra_operations::opaque_add(m_cond, 1u, boost::memory_order_relaxed);\n\n    if (BOOST_LIKELY(m_waiter_count > 0u))\n    {", "inline void wait_state::notify_all(lock_state& state) noexcept\n{\n    futex_extra_operations::opaque_add(m_cond, 1u, boost::memory_order_relaxed);\n\n    const bool any = m_waiter_count != 0u;\n    if (any)\n    {"))
good("mark-before-requeue", ALLP, lp("        atomics::detail::futex_requeue(&m_cond, &state.m_mutex, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG, 0u);\n        futex_extra_operations::opaque_or(state.m_mutex, mutex_bits::contended, boost::memory_order_relaxed);", "        futex_extra_operations::opaque_or(state.m_mutex, mutex_bits::contended, boost::memory_order_relaxed);\n        atomics::detail::futex_requeue(&m_cond, &state.m_mutex, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG, 0u);"))
good("notify-wake-directly", ALLP, lp("        atomics::detail::futex_requeue(&m_cond, &state.m_mutex, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG, 0u);\n        futex_extra_operations::opaque_or(state.m_mutex, mutex_bits::contended, boost::memory_order_relaxed);", "        (void)state; atomics::detail::futex_broadcast(&m_cond, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG);"))
good("erase-reordered", ALLP, lp("        wait_state* last_w = pw[last_index];\n        pw[index] = last_w;\n        pw[last_index] = w;\n\n        last_w->m_index = index;\n        w->m_index = last_index;\n", "        wait_state* const last_w = pw[last_index];\n        w->m_index = last_index;\n        last_w->m_index = index;\n        pw[last_index] = w;\n        pw[index] = last_w;\n"))
good("erase-no-branch", ALLP, lp("    if (index != last_index)\n    {\n        pa[index] = pa[last_index];\n        pa[last_index] = nullptr;\n\n        wait_state* last_w = pw[last_index];\n        pw[index] = last_w;\n        pw[last_index] = w;\n\n        last_w->m_index = index;\n        w->m_index = last_index;\n    }\n    else\n    {\n        pa[index] = nullptr;\n    }\n", "    pa[index] = pa[last_index];\n    pa[last_index] = nullptr;\n    wait_state* last_w = pw[last_index];\n    pw[index] = last_w;\n    pw[last_index] = w;\n    last_w->m_index = index;\n    w->m_index = last_index;\n"))
good("erase-no-null", ALLP, lp("        pa[last_index] = nullptr;\n", ""))
good("grow-triple", ALLP, lp("m_header->capacity * 2u", "m_header->capacity * 3u"))
good("grow-by-two", ALLP, lp("m_header->capacity * 2u", "m_header->capacity + 2u"))
good("initial-four", ALLP, lp("(16u / sizeof(void*)) < 2u ? 2u : (16u / sizeof(void*))", "4u"))
good("grow-clear-first", ALLP, lp("    if (BOOST_LIKELY(old_header != nullptr))\n    {\n        BOOST_ASSERT(new_capacity", "    std::memset(p, 0, new_buffer_size);\n    if (BOOST_LIKELY(old_header != nullptr))\n    {\n        BOOST_ASSERT(new_capacity"), lp("        std::memset(a + old_header->size, 0, (new_capacity - old_header->size) * sizeof(const volatile void*));\n", ""), lp("        std::memset(w + old_header->capacity, 0, (new_capacity - old_header->capacity) * sizeof(wait_state*));\n", ""))
good("grow-loop-copy", ALLP, lp("        std::memcpy(a, old_a, old_header->size * sizeof(const volatile void*));\n", "        for (std::size_t i = 0u; i < old_header->size; ++i)\n            a[i] = old_a[i];\n"))
good("free-helper", ALLP, lp("        for (std::size_t i = m_header->size, n = m_header->capacity; i < n; ++i)\n        {\n            wait_state* w = ws[i];\n            if (!w)\n                break;\n\n            delete w;\n            ws[i] = nullptr;\n        }\n", "        std::size_t i = m_header->size;\n        const std::size_t n = m_header->capacity;\n        while (i < n && ws[i] != nullptr)\n        {\n            delete ws[i];\n            ws[i++] = nullptr;\n        }\n"))
good("free-spare-continue", ALLP, lp("            if (!w)\n                break;\n\n            delete w;", "            delete w;"))
good("alloc-restructure", ALLP, lp("    if (BOOST_LIKELY(ws != nullptr))\n        ++ws->m_ref_count;\n\n    return ws;", "    if (ws == nullptr)\n        return nullptr;\n    ws->m_ref_count = ws->m_ref_count + 1u;\n    return ws;"))
good("free-restructure", ALLP, lp("        if (--ws->m_ref_count == 0u)\n        {", "        const std::size_t refs = ws->m_ref_count - 1u;\n        ws->m_ref_count = refs;\n        if (refs == 0u)\n        {"))
good("index-mod", ALLP, lp("return h & (lock_pool_size - 1u);", "return h % lock_pool_size;"))
good("until-loop-helper", ALLP, lp("                const std::chrono::nanoseconds::rep sec = nsec / 1000000000;\n                if", "                const std::chrono::nanoseconds::rep sec = nsec / 1000000000LL;\n                if"))
good("seq-cst", ALLP, lp("boost::memory_order_acquire", "boost::memory_order_seq_cst"))
good("atomic-pointer-order", ALLP, lp("        h->size = old_header->size;\n\n        const volatile void** old_a", "        const std::size_t old_size = old_header->size;\n        h->size = old_size;\n\n        const volatile void** old_a"))
good("count-helper", ALLP, lp("    state.long_lock();\n\n    --m_waiter_count;\n\n    return timed_out;", "    state.long_lock();\n\n    m_waiter_count -= 1u;\n\n    return timed_out;"))
good("sleep-without-marking", ALLP, lp("if (BOOST_LIKELY(futex_operations::compare_exchange_weak(m_mutex, prev_state, new_state, boost::memory_order_relaxed, boost::memory_order_relaxed)))\n                {\n                    atomics", "futex_operations::compare_exchange_weak(m_mutex, prev_state, new_state, boost::memory_order_relaxed, boost::memory_order_relaxed);\n                {\n                    atomics"))
good("grow-loop-copy-states", ALLP, lp("std::memcpy(w, old_w, old_header->capacity * sizeof(wait_state*)); // copy spare wait state pointers", "for (std::size_t i = 0u, n = old_header->capacity; i != n; ++i)\n            w[i] = old_w[i];"))
good("grow-loop-zero", ALLP, lp("        std::memset(a + old_header->size, 0, (new_capacity - old_header->size) * sizeof(const volatile void*));\n", "        for (std::size_t i = old_header->size; i < new_capacity; ++i)\n            a[i] = nullptr;\n"))
bad("grow-loop-short", "A13", lp("        std::memcpy(a, old_a, old_header->size * sizeof(const volatile void*));\n", "        for (std::size_t i = 1u; i < old_header->size; ++i)\n            a[i] = old_a[i];\n"))
