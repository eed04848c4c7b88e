// Names and intrinsics the engine executes itself.
#pragma once
enum {
  B_unknown = 0, B_asm, B_nop, B_nop0, B_printf, B_fprintf, B_nop1, B_malloc, B_calloc, B_malloc_n, B_calloc_n, B_realloc, B_realloc_n, B_free, B_memalign, B_posix_memalign,
  B_memcpy, B_memmove, B_memset, B_strdup, B_abort, B_exit, B_assert, B_snprintf, B_sprintf, B_g_strdup_printf,
  B_sym, B_range, B_bytes, B_assume, B_check, B_cover, B_observe, B_concretize, B_done, B_engine, B_param, B_sparam, B_expect_abort, B_live, B_print, B_valid,
  B_math1, B_math2, B_ldexp, B_throw, B_zero, B_ctz, B_clz, B_popcount, B_bswap, B_umin, B_umax, B_smin, B_smax, B_abs, B_expect, B_objsize, B_fshl, B_fshr,
  B_ovf, B_sat, B_fma, B_isconst, B_stacksave, B_ptrmask, B_tls, B_va_start, B_va_copy, B_va_end, B_frameaddr, B_trap, B_vred, B_isfpclass, B_log_abort, B_lock, B_unlock, B_thread_op
};
static std::unordered_map<std::string, int> bnames;
static std::unordered_map<std::string, std::string> mathName;
static void initBuiltins() {
  auto N = [&](int id, std::initializer_list<const char *> l) { for (auto x : l) bnames[x] = id; };
  N(B_printf, {"printf", "g_print", "g_printerr"});
  N(B_fprintf, {"fprintf"});
  N(B_nop0, {"vfprintf", "vprintf", "puts", "putchar", "fputs", "fputc", "putc", "fflush", "perror", "fwrite_log", "setvbuf", "setlocale",
             "pthread_mutex_init", "pthread_mutex_destroy", "pthread_spin_init", "pthread_spin_lock", "pthread_spin_unlock",
             "pthread_spin_destroy", "pthread_rwlock_init", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_rwlock_destroy",
             "madvise", "g_mutex_init", "g_mutex_clear", "__cxa_atexit", "atexit", "usleep", "sleep", "signal", "g_usleep",
             "backtrace", "backtrace_symbols_fd", "localtime", "localtime_r", "isatty", "getpid", "pthread_self", "__cxa_guard_release", "g_log", "posix_fadvise", "tzset",
             "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev", "llvm.stackprotector", "__cxa_begin_catch", "__cxa_end_catch"});
  N(B_malloc, {"malloc", "g_malloc", "_Znwm", "_Znam", "g_slice_alloc", "valloc", "g_try_malloc", "__cxa_allocate_exception", "_ZnwmRKSt9nothrow_t"});
  N(B_calloc, {"calloc"});
  N(B_malloc_n, {"g_malloc_n"});
  N(B_calloc_n, {"g_malloc0_n", "g_malloc0", "g_slice_alloc0", "g_try_malloc0"});
  N(B_realloc, {"realloc", "g_realloc"});
  N(B_realloc_n, {"reallocarray", "g_realloc_n"});
  N(B_free, {"free", "g_free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "g_slice_free1", "cfree", "g_free_sized"});
  N(B_memalign, {"memalign", "aligned_alloc", "_ZnwmSt11align_val_t"});
  N(B_posix_memalign, {"posix_memalign"});
  N(B_memcpy, {"memcpy", "__memcpy_chk"});
  N(B_memmove, {"memmove", "__memmove_chk"});
  N(B_memset, {"memset", "__memset_chk"});
  N(B_abort, {"abort", "__cxa_pure_virtual", "_ZSt9terminatev", "__stack_chk_fail", "g_assertion_message_expr", "g_assertion_message", "_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc", "_ZSt20__throw_out_of_rangePKc",
              "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt25__throw_bad_function_callv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt20__throw_system_errori", "__cxa_rethrow"});
  N(B_throw, {"__cxa_throw"});
  N(B_exit, {"exit", "_exit", "_Exit", "quick_exit"});
  N(B_assert, {"__assert_fail"});
  N(B_snprintf, {"snprintf", "g_snprintf", "__snprintf_chk"});
  N(B_sprintf, {"sprintf"});
  N(B_g_strdup_printf, {"g_strdup_printf"});
  N(B_lock, {"pthread_mutex_lock", "g_mutex_lock"});
  N(B_unlock, {"pthread_mutex_unlock", "g_mutex_unlock"});
  N(B_thread_op, {"lc_thread_op"});
  N(B_sym, {"lc_sym"});
  N(B_range, {"lc_range"});
  N(B_bytes, {"lc_bytes"});
  N(B_assume, {"lc_assume"});
  N(B_check, {"lc_check_"});
  N(B_cover, {"lc_cover"});
  N(B_observe, {"lc_observe"});
  N(B_concretize, {"lc_concretize"});
  N(B_done, {"lc_done"});
  N(B_engine, {"lc_engine"});
  N(B_param, {"lc_param"});
  N(B_sparam, {"lc_sparam"});
  N(B_expect_abort, {"lc_expect_abort"});
  N(B_live, {"lc_live"});
  N(B_print, {"lc_print"});
  N(B_valid, {"lc_valid"});
  for (auto m : {"log", "log2", "log10", "exp", "exp2", "sqrt", "floor", "ceil", "fabs", "round", "trunc", "sin", "cos", "tan", "log1p", "expm1", "rint", "nearbyint", "cbrt", "tgamma", "lgamma"}) { bnames[m] = B_math1; bnames[std::string(m) + "f"] = B_math1; }
  for (auto m : {"pow", "fmin", "fmax", "fmod", "atan2"}) { bnames[m] = B_math2; bnames[std::string(m) + "f"] = B_math2; }
  N(B_ldexp, {"ldexp"});
  N(B_zero, {"clock", "time", "strftime", "gettimeofday", "clock_gettime", "g_get_monotonic_time", "g_get_real_time", "omp_get_wtime", "getrusage", "pthread_once"});
  N(B_nop1, {"__cxa_guard_acquire"});
}
static int builtinOf(const Function *F) {
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return B_memcpy;
      case Intrinsic::memmove: return B_memmove;
      case Intrinsic::memset: case Intrinsic::memset_inline: return B_memset;
      case Intrinsic::ctlz: return B_clz;
      case Intrinsic::cttz: return B_ctz;
      case Intrinsic::ctpop: return B_popcount;
      case Intrinsic::bswap: return B_bswap;
      case Intrinsic::umin: return B_umin;
      case Intrinsic::umax: return B_umax;
      case Intrinsic::smin: return B_smin;
      case Intrinsic::smax: return B_smax;
      case Intrinsic::abs: return B_abs;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: return B_expect;
      case Intrinsic::objectsize: return B_objsize;
      case Intrinsic::fshl: return B_fshl;
      case Intrinsic::fshr: return B_fshr;
      case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: return B_ovf;
      case Intrinsic::uadd_sat: case Intrinsic::usub_sat: return B_sat;
      case Intrinsic::fmuladd: case Intrinsic::fma: return B_fma;
      case Intrinsic::is_constant: return B_isconst;
      case Intrinsic::stacksave: return B_stacksave;
      case Intrinsic::threadlocal_address: return B_expect;
      case Intrinsic::vastart: return B_va_start;
      case Intrinsic::vacopy: return B_va_copy;
      case Intrinsic::vaend: return B_nop;
      case Intrinsic::trap: case Intrinsic::ubsantrap: return B_trap;
      case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::round: case Intrinsic::trunc: case Intrinsic::rint: return B_math1;
      case Intrinsic::pow: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::copysign: return B_math2;
      case Intrinsic::frameaddress: case Intrinsic::returnaddress: return B_zero;
      case Intrinsic::is_fpclass: return B_isfpclass;
      default: return B_unknown;
    }
  }
  auto it = bnames.find(F->getName().str());
  if (it == bnames.end() && F->isDeclaration() && F->arg_size() >= 1) {  // C++ stream output: no effect, returns the stream
    StringRef n = F->getName();
    for (const char *p : {"_ZStls", "_ZNSo", "_ZSt16__ostream_insert", "_ZSt4endl", "_ZSt5flush"}) if (n.startswith(p)) return B_expect;
  }
  if (it == bnames.end()) return -1;
  // a definition in the bitcode (harness or runtime model) takes precedence, except for the lc_ interface
  if (!F->isDeclaration() && F->getName().substr(0, 3) != "lc_") return -1;
  return it->second;
}
