/*
 * X macros without trailing semicolon.
 */

RBT_PROTOTYPE(hiballoc_addr, hiballoc_entry, hibe_entry, hibe_cmp)
