/*
 * AFL
 */

// clang-format on

int x =
#ifdef FOO
    0
#else
    1
#endif

i;	

// clang-format on

int x = 0
// clang-format off
;

g-f
