// Runs the linker under test: ldrun OS ARCH PIE DEBUG ENTRY OUT ARG...
// ARG is an input path, -L<dir>, or +<linker flags>. Exit code: 0, or 10 + status.
#include "src/ld/ld.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static void diag(void *ctx, ld_diag_level_t level, const char *message) {
    (void) ctx;
    fprintf(stderr, "%s: %s\n", level == LD_DIAG_ERROR ? "error" : "note", message);
}

int main(int argc, char **argv) {
    if (argc < 8) return 2;
    ld_options_t o;
    ld_options_init(&o);
    o.diagnostic = diag;
    o.os = !strcmp(argv[1], "linux") ? LD_OS_LINUX : !strcmp(argv[1], "windows") ? LD_OS_WINDOWS : LD_OS_DARWIN;
    o.arch = !strcmp(argv[2], "amd64") ? LD_ARCH_AMD64 : !strcmp(argv[2], "arm64") ? LD_ARCH_ARM64 : LD_ARCH_RISCV64;
    o.pie = atoi(argv[3]);
    o.debug_mode = atoi(argv[4]) ? LD_DEBUG_DWARF : LD_DEBUG_NONE;
    if (strcmp(argv[5], "-")) o.entry_symbol = argv[5];
    o.output_path = argv[6];
    o.map_path = getenv("LDRUN_MAP");
    o.sysroot = getenv("LDRUN_SYSROOT");
    int rc = 0;
    for (int i = 7; i < argc && rc == 0; i++) {
        if (!strncmp(argv[i], "-L", 2)) rc = ld_add_library_path(&o, argv[i] + 2);
        else if (argv[i][0] == '+') rc = ld_parse_flags(&o, argv[i] + 1);
        else rc = ld_add_input(&o, argv[i]);
    }
    if (rc == 0) rc = ld_link(&o);
    ld_options_deinit(&o);
    return rc ? 10 + rc : 0;
}
