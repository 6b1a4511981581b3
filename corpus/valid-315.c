/*
 * Cast false positives.
 */

int x = y[(v) & 0xff];
int pte_paddr = (pt_paddr) + (pdidx * pte_size);
