/*
 * Binary expression, misplaced operator.
 */

int
main(void)
{
	*mod &= (rp_modifier_info.meta_mod_mask
	    | rp_modifier_info.alt_mod_mask
	    | rp_modifier_info.hyper_mod_mask
	    | rp_modifier_info.super_mod_mask
	    | ControlMask
	    | shift);
}
