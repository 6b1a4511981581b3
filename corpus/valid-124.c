/*
 * Declaration hidden behind cpp a lacking trailing semicolon.
 */

RBT_PROTOTYPE(hiballoc_addr, hiballoc_entry, hibe_entry, hibe_cmp)

int	x;
