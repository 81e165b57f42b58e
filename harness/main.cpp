namespace eng {
int engine_main(int argc, char **argv);
}
int main(int argc, char **argv) { return eng::engine_main(argc, argv); }

// Sanitizer defaults: a report ends the process, which the engine takes as a failure of the case
extern "C" __attribute__((used, visibility("default"))) const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0"; }
extern "C" __attribute__((used, visibility("default"))) const char *__asan_default_options() { return "halt_on_error=1:exitcode=67:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1"; }
extern "C" __attribute__((used, visibility("default"))) const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=68"; }
