/* libFuzzer target: compile any text.  The first statement fails at run time, so nothing of the text is executed. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include "include/dictu_include.h"

static const char head[] = "neverDefined();\n";

/* instrumented frames are several times as large as those of the program users run */
static void moreStack(void) {
    struct rlimit st;
    getrlimit(RLIMIT_STACK, &st);
    if (st.rlim_cur != RLIM_INFINITY) {
        rlim_t want = st.rlim_cur * 8;
        st.rlim_cur = st.rlim_max != RLIM_INFINITY && st.rlim_max < want ? st.rlim_max : want;
        setrlimit(RLIMIT_STACK, &st);
    }
}

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    static char *args[] = {"fuzz"};
    static int started = 0;
    if (!started++) moreStack();
    char *text = malloc(sizeof(head) + size);
    memcpy(text, head, sizeof(head) - 1);
    memcpy(text + sizeof(head) - 1, data, size);
    text[sizeof(head) - 1 + size] = '\0';
    DictuVM *vm = dictuInitVM(0, 1, args);
    dictuInterpret(vm, "main.du", text);
    dictuFreeVM(vm);
    free(text);
    return 0;
}
