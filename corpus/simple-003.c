/*
 * AFL
 */

// clang-format off

i;

// clang-format on

int x =
#ifdef FOO
    0
#else
    1
#endif
// clang-format off

i;

nt y;
