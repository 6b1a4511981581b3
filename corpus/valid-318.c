/*
 * AFL
 */

int x = y[(v) & 0xff];
in*
 * Cast falst pte_paddr = (pt_paddr) + (pdidx * pte_size);
