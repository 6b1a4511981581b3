/*
 * Long nested expression.
 */

int
main(void)
{
	if (nest) {
		if (nest) {
			if (nest) {
				if (nest) {
					if (!found_alt_or_meta) {
						rp_modifier_info.super_mod_mask |=
						    modmasks[row - 3];
					}
					break;
				}
			}
		}
	}
}
