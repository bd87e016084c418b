// Faults without an exception: range violations the standard library detects
// (-D_GLIBCXX_ASSERTIONS), and signals.
#include <signal.h>
namespace std {
  void __glibcxx_assert_fail(const char* file, int line, const char* function, const char* condition) noexcept
  { symx::fault(std::string("C++ range check: ") + (condition ? condition : "?") + " in " + (function ? function : "?")); }
}
static void symx_signal(int s)
{
  signal(s, SIG_DFL);
  symx::fault(std::string("signal ") + strsignal(s) + " in C++");
}
extern "C" __attribute__((visibility("default"))) void symx_install_handlers()
{
  const size_t size = 1 << 20;
  stack_t st;
  st.ss_sp = malloc(size); st.ss_size = size; st.ss_flags = 0;
  sigaltstack(&st, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) {
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_handler = symx_signal;
    a.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(s, &a, nullptr);
  }
}
// The module is imported: from here on the values of its variables are put back between paths.
extern "C" __attribute__((visibility("default"))) void symx_loaded() { symx_loading = false; }
