/*
 * Unknown function argument type without an identifier.
 */

void	dos_mbr_to_mbr(const uint64_t);
