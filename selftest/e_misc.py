from edits import bad, good, D
AI, FI, RI, FF = D + "atomic_impl.hpp", D + "atomic_flag_impl.hpp", D + "atomic_ref_impl.hpp", D + "fence_arch_ops_gcc_x86.hpp"
X, C, MU, FG = D + "extra_ops_gcc_x86.hpp", D + "core_arch_ops_gcc_x86.hpp", D + "memory_order_utils.hpp", D + "fence_ops_gcc_atomic.hpp"
# A19
bad("ord-util-mask", "A19", (MU, "& 15u) <= (", "& 7u) <= ("))
bad("ord-util-lt", "A19", (MU, "& 15u) <= (", "& 15u) < ("))
bad("ord-store-drop", "A19", (AI, "        BOOST_ASSERT(order != memory_order_consume);\n", ""))
bad("ord-wait-drop", "A19", (AI, "wait(value_arg_type old_val, memory_order order = memory_order_seq_cst) const volatile noexcept\n    {\n        BOOST_ASSERT(order != memory_order_release);\n",
                             "wait(value_arg_type old_val, memory_order order = memory_order_seq_cst) const volatile noexcept\n    {\n"))
bad("ord-clear-seqcst", "A19", (FI, "        BOOST_ASSERT(order != memory_order_acquire);\n", "        BOOST_ASSERT(order != memory_order_seq_cst);\n"))
good("ord-merge", "A19", (AI, "        BOOST_ASSERT(order != memory_order_release);\n        BOOST_ASSERT(order != memory_order_acq_rel);\n", "        BOOST_ASSERT(order != memory_order_release && order != memory_order_acq_rel);\n"))
good("ord-table", "A19", (MU, "    return (static_cast< unsigned int >(failure_order) & 15u) <= (static_cast< unsigned int >(success_order) & 15u);",
                          "    return static_cast< unsigned int >(failure_order) <= static_cast< unsigned int >(success_order);"))
good("ord-store-switch", "A19", (AI, "        BOOST_ASSERT(order != memory_order_consume);\n        BOOST_ASSERT(order != memory_order_acquire);\n        BOOST_ASSERT(order != memory_order_acq_rel);\n",
                                 "        BOOST_ASSERT(order == memory_order_relaxed || order == memory_order_release || order == memory_order_seq_cst);\n"))
# A22
bad("fence-nolock", "A22", (FF, "lock; notb %0", "notb %0"))
bad("fence-nomem", "A22", (FF, '"+m" (dummy) : : "memory"', '"+m" (dummy)'))
bad("fence-release-mask", "A22", (FF, "        if (order == memory_order_seq_cst)\n", "        if (order == memory_order_acq_rel)\n"))
bad("fence-gcc-acqrel", "A22", (FG, "            fence_arch_operations::thread_fence(order);", "            __atomic_thread_fence(__ATOMIC_ACQ_REL);"))
bad("fence-signal", "A22", (FG, "__atomic_signal_fence(atomics::detail::convert_memory_order_to_gcc(order));", "(void)order;"))
bad("fence-lp", "A22", ("src/lock_pool.cpp", "atomics::detail::fence_operations::thread_fence(memory_order_seq_cst);", "atomics::detail::fence_operations::signal_fence(memory_order_seq_cst);"))
bad("fence-order-util", "A22 A06", (D + "gcc_atomic_memory_order_utils.hpp", "order == memory_order_release ? __ATOMIC_RELEASE", "order == memory_order_release ? __ATOMIC_RELAXED"))
good("fence-mfence", "A22 A24", (FF, '__asm__ __volatile__ ("lock; notb %0" : "+m" (dummy) : : "memory");', '(void)dummy; __asm__ __volatile__ ("mfence" ::: "memory");'))
good("fence-all-gcc", "A22", (FG, "            fence_arch_operations::thread_fence(order);", "            __atomic_thread_fence(__ATOMIC_SEQ_CST);"))
good("fence-or", "A22 A24", (FF, "unsigned char dummy = 0u;", "unsigned int dummy = 0u;"), (FF, "lock; notb %0", "lock; orl $0, %0"))
good("fence-switch", "A22", (FF, "            __asm__ __volatile__ (\"\" ::: \"memory\");\n        }", "            signal_fence(order);\n        }"))
# A24
bad("asm-early", "A24", (X, '[storage] "+m" (storage), "=&q" (result)\\', '[storage] "+m" (storage), "=q" (result)\\'))
bad("asm-lock", "A24 A01", (X, '"lock; btsl %[bit_number], %[storage]\\n\\t"', '"btsl %[bit_number], %[storage]\\n\\t"'))
bad("asm-width16", "A24", (X, '"lock; cmpxchgw %w2, %[storage]\\n\\t"\\', '"lock; cmpxchgl %2, %[storage]\\n\\t"\\'))
bad("asm-raxclob", "A24", (C, '"rax", "rdx", "memory"', '"rax", "memory"'))
bad("asm-cpuid", "A24", ("src/cpuid.hpp", '            : "+a" (eax), "+b" (ebx), "+c" (ecx), "+d" (edx)', '            : "+a" (eax), "+c" (ecx), "+d" (edx)'))
bad("asm-volatile", "A24", (FF, '__asm__ __volatile__ ("lock', '__asm__ ("lock'))
bad("asm-storein", "A24", (C, '[dest_lo] "=m" (storage), [dest_hi] "=m" (reinterpret_cast< volatile aliasing_uint64_t* >(&storage)[1])\n            : "b"', '\n            : [dest_lo] "m" (storage), [dest_hi] "m" (reinterpret_cast< volatile aliasing_uint64_t* >(&storage)[1]), "b"'), (C, '"rax", "rdx", "memory"', '"rax", "rdx"'))
bad("asm-outread", "A24", (C, '"rax", "rdx", "memory"', '"rax", "rdx"'))
good("asm-pause-vol", "A24", ("include/boost/atomic/thread_pause.hpp", '__asm__ __volatile__("pause" : : : "memory");', '__asm__("pause" : : : "memory");'))
good("asm-extra-clobber", "A24", (C, '"rax", "rdx", "memory"', '"rax", "rdx", "r11", "memory"'))
good("asm-constraint", "A24 A02", (X, '"Kr" ((std::uint32_t)bit_number)', '"r" ((std::uint32_t)bit_number)'))
good("asm-numbered", "A24 A02", (X, '"lock; btsl %[bit_number], %[storage]\\n\\t"', '"lock; btsl %[bit_number], %0\\n\\t"'))
