/*
 * Group variable declarations, alignment regression.
 */

int
main(void)
{
	uint64_t pte, pt_paddr, pte_paddr, mask, low_mask, high_mask;
	uint64_t shift_width, pte_size, *hva;
}
