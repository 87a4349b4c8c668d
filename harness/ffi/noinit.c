/* a library without the FFI's entry point */
int vf_nothing(void) { return 1; }
