from edits import bad, good, lp, LP
S2, S4 = "src/find_address_sse2.cpp", "src/find_address_sse41.cpp"
def b2(n, *es): bad("srch2-" + n, "A14", *[(S2, a, b) for a, b in es])
def b4(n, *es): bad("srch4-" + n, "A14", *[(S4, a, b) for a, b in es])
def g2(n, *es): good("srch2-" + n, "A14", *[(S2, a, b) for a, b in es])
def g4(n, *es): good("srch4-" + n, "A14", *[(S4, a, b) for a, b in es])
b2("packs-order", ("mm_mask1_lo = _mm_packs_epi16(mm_mask1_lo, mm_mask3_lo);", "mm_mask1_lo = _mm_packs_epi16(mm_mask3_lo, mm_mask1_lo);"))
b2("no-hi", ("        mm_mask4_lo = mm_pand_si128(mm_mask4_lo, mm_mask4_hi);\n", ""))
b2("shuffle", ("_mm_castsi128_ps(mm5), _mm_castsi128_ps(mm6), _MM_SHUFFLE(3, 1, 3, 1)", "_mm_castsi128_ps(mm5), _mm_castsi128_ps(mm6), _MM_SHUFFLE(3, 1, 2, 1)"))
b2("m-mask", ("n & ~static_cast< std::size_t >(15u)", "n & ~static_cast< std::size_t >(7u)"))
b2("n-round", ("(size + 1u) & ~static_cast< std::size_t >(1u)", "size & ~static_cast< std::size_t >(1u)"))
b2("n-int", ("const std::size_t n = (size + 1u) & ~static_cast< std::size_t >(1u);", "const unsigned int n = (unsigned int)((size + 1u) & ~static_cast< std::size_t >(1u));"))
b2("ctz-half", ("count_trailing_zeros(mask) / 2u", "count_trailing_zeros(mask)"))
b2("tail-skip", ("    if (pos < n)\n    {\n        __m128i mm1 = _mm_load_si128(reinterpret_cast< const __m128i* >(addrs + pos));\n\n        mm1 = _mm_cmpeq_epi32(mm1, mm_addr);\n        __m128i mm_mask", "    if (pos + 2u < n)\n    {\n        __m128i mm1 = _mm_load_si128(reinterpret_cast< const __m128i* >(addrs + pos));\n\n        mm1 = _mm_cmpeq_epi32(mm1, mm_addr);\n        __m128i mm_mask"))
b2("mid-gt", ("if ((n - pos) >= 4u)", "if ((n - pos) > 4u)"))
b2("loop-step", ("pos += 16u)", "pos += 18u)"))
b2("no-advance8", ("        pos += 8u;\n", "        pos += 4u;\n"))
b2("dup-load", ("addrs + pos + 10u", "addrs + pos + 8u"))
g2("final-shuffle", ("_mm_shuffle_epi32(mm1, _MM_SHUFFLE(2, 3, 0, 1))", "_mm_shuffle_epi32(mm1, _MM_SHUFFLE(2, 2, 0, 0))"))
b2("delegate", ("if (size < 12u)\n        return find_address_generic(addr, addrs, size);", "if (size < 12u)\n        return find_address_generic(addr, addrs, size & ~static_cast< std::size_t >(1u));"))
b4("packs", ("mm1 = _mm_packs_epi32(mm1, mm3);", "mm1 = _mm_packs_epi32(mm3, mm1);"))
b4("cmp32", ("mm7 = _mm_cmpeq_epi64(mm7, mm_addr);", "mm7 = _mm_cmpeq_epi32(mm7, mm_addr);"))
b4("overread", ("if ((n - pos) >= 8u)", "if ((n - pos) >= 6u)"))
b4("target", ("std::size_t find_address_sse41(", '__attribute__((target("avx2"))) std::size_t find_address_sse41('))
b4("align32", ("    const __m128i mm_addr", "    addrs = static_cast< const volatile void* const* >(__builtin_assume_aligned(addrs, 32));\n    const __m128i mm_addr"),
   ("__m128i mm1 = _mm_load_si128(reinterpret_cast< const __m128i* >(addrs + pos));", "__m128i mm1 = *reinterpret_cast< const __m128i* >(addrs + pos);"))
bad("srchg-lt", "A14", lp("for (std::size_t i = 0u; i < size; ++i)", "for (std::size_t i = 0u; i + 1u < size; ++i)"))
bad("srchg-step", "A14", lp("        if (addrs[i] == addr)\n            return i;", "        if ((((uintptr_t)addrs[i]) ^ (uintptr_t)addr) << 32 == 0u)\n            return i;"))
bad("srchg-u32", "A14", lp("for (std::size_t i = 0u; i < size; ++i)", "for (unsigned int i = 0u; i < (unsigned int)size; ++i)"))
bad("disp-bit", "A14", lp("(ecx & (1u << 19))", "(ecx & (1u << 9))"))
bad("disp-reg", "A14", lp("(ecx & (1u << 19))", "(edx & (1u << 19))"))
bad("disp-any", "A14", lp("(ecx & (1u << 19))", "(ecx & ((1u << 19) | 1u))"))
bad("disp-leaf", "A14", lp("if (max_cpuid_function >= 1u)", "if (max_cpuid_function >= 0u)"))
bad("disp-store", "A14", lp("    find_address_ptr ptr = {};\n    ptr.as_ptr = find_addr;", "    find_address_ptr ptr = {};\n    ptr.as_ptr = &find_address_sse41;"))
bad("disp-init", "A14", lp("    &find_address_dispatch\n", "    &find_address_sse41\n"))
bad("disp-args", "A14", lp("    return find_addr(addr, addrs, size);", "    return find_addr(addr, addrs + 1, size);"))
g2("and-intrinsic", ('#if defined(__AVX__)\n    // Generate', '#if 1\n    mm1 = _mm_and_si128(mm1, mm2);\n#elif defined(__AVX__)\n    // Generate'))
g2("threshold", ("if (size < 12u)", "if (size < 4u)"))
g2("while", ("    for (std::size_t m = n & ~static_cast< std::size_t >(15u); pos < m; pos += 16u)\n    {", "    for (; n - pos >= 16u; pos += 16u)\n    {"))
g2("ctz-shift", ("count_trailing_zeros(mask) / 2u", "count_trailing_zeros(mask) >> 1u"))
g2("ret", ("            pos += atomics::detail::count_trailing_zeros(mask);\n            goto done;", "            return pos + atomics::detail::count_trailing_zeros(mask);"))
g2("unaligned", ("_mm_load_si128(", "_mm_loadu_si128("))
g2("delegate-tail", ("    if ((n - pos) >= 8u)\n", "    if (pos > 0u)\n        return pos + find_address_generic(addr, addrs + pos, size - pos);\n    if ((n - pos) >= 8u)\n"))
g4("ptr-loop", ("addrs + pos + 14u", "p + 14"), ("        __m128i mm1 = _mm_load_si128(reinterpret_cast< const __m128i* >(addrs + pos));\n        __m128i mm2 = _mm_load_si128(reinterpret_cast< const __m128i* >(addrs + pos + 2u));\n        __m128i mm3 = _mm_load_si128(reinterpret_cast< const __m128i* >(addrs + pos + 4u));\n        __m128i mm4 = _mm_load_si128(reinterpret_cast< const __m128i* >(addrs + pos + 6u));\n        __m128i mm5",
     "        const volatile void* const* p = addrs + pos;\n        __m128i mm1 = _mm_load_si128(reinterpret_cast< const __m128i* >(p));\n        __m128i mm2 = _mm_load_si128(reinterpret_cast< const __m128i* >(p + 2u));\n        __m128i mm3 = _mm_load_si128(reinterpret_cast< const __m128i* >(p + 4u));\n        __m128i mm4 = _mm_load_si128(reinterpret_cast< const __m128i* >(p + 6u));\n        __m128i mm5"))
g4("sub-size", ("if ((n - pos) >= 4u)", "if (pos + 4u <= n)"))
g4("if-chain", ("    if (pos < n)\n", "    if (n != pos)\n"))
g4("or-test", ("        std::uint32_t mask = _mm_movemask_epi8(mm1);\n        if (mask)", "        const int imask = _mm_movemask_epi8(mm1);\n        std::uint32_t mask = static_cast< std::uint32_t >(imask);\n        if (imask != 0)"))
good("srchg-while", "A14", lp("    for (std::size_t i = 0u; i < size; ++i)\n    {\n        if (addrs[i] == addr)\n            return i;\n    }\n\n    return size;",
     "    const volatile void* const* p = addrs;\n    const volatile void* const* const e = addrs + size;\n    while (p != e && *p != addr)\n        ++p;\n    return static_cast< std::size_t >(p - addrs);"))
good("srchg-break", "A14", lp("    for (std::size_t i = 0u; i < size; ++i)\n    {\n        if (addrs[i] == addr)\n            return i;\n    }\n\n    return size;",
     "    std::size_t i = 0u;\n    for (std::size_t n = size; n > 0u; --n, ++i)\n    {\n        if (addrs[i] == addr)\n            break;\n    }\n\n    return i;"))
good("srchg-rev", "A14", lp("    for (std::size_t i = 0u; i < size; ++i)\n    {\n        if (addrs[i] == addr)\n            return i;\n    }\n\n    return size;",
     "    std::size_t i = size;\n    while (i > 0u)\n    {\n        --i;\n        if (addrs[i] == addr)\n            return i;\n    }\n\n    return size;"))
good("disp-else", "A14", lp("        if ((edx & (1u << 26)) != 0u)\n            find_addr = &find_address_sse2;\n\n#if defined(BOOST_ATOMIC_USE_SSE41) && BOOST_ATOMIC_DETAIL_SIZEOF_POINTER == 8\n        if ((ecx & (1u << 19)) != 0u)\n            find_addr = &find_address_sse41;\n",
     "#if defined(BOOST_ATOMIC_USE_SSE41) && BOOST_ATOMIC_DETAIL_SIZEOF_POINTER == 8\n        const bool has = (ecx >> 19) & 1u;\n        if (has)\n            find_addr = &find_address_sse41;\n        else if ((edx & 0x04000000u) == 0x04000000u)\n            find_addr = &find_address_sse2;\n"))
good("disp-early", "A14", lp("    const std::uint32_t max_cpuid_function = eax;\n    if (max_cpuid_function >= 1u)\n", "    if (eax != 0u)\n"))
