/* native_main.c - libFuzzer entry: runs one harness on one input string */
#include <stdint.h>
#include <stddef.h>
#include <setjmp.h>
const uint8_t *vp_data; size_t vp_left; jmp_buf vp_out;
#define STR2(x) #x
#define STR(x) STR2(x)
const char *vp_unit_name = STR(VP_ENTRY_FN);
void VP_ENTRY_FN(void);
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n);
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    vp_data = d; vp_left = n;
    if (setjmp(vp_out) == 0) VP_ENTRY_FN();
    return 0;
}
