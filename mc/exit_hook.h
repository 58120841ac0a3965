// Force-included (-include) when /repo's sources are compiled for model
// checking: a call of exit() in the library becomes an exception that the
// explorer observes as "refused with status n" instead of ending the explorer.
#ifndef VERIF_EXIT_HOOK_H
#define VERIF_EXIT_HOOK_H
#ifdef __cplusplus
#include <cstdlib>
#include <stdlib.h>
[[noreturn]] void verif_exit(int code);
namespace std {
using ::verif_exit;
}
#define exit verif_exit
#endif
#endif
