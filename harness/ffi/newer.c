/* a module that wants a newer interface than any interpreter offers */
int dictu_internal_ffi_init(void **f, void *vm, void *t, int version) { (void)f; (void)vm; (void)t; return 1000000 > version ? 2 : 0; }
