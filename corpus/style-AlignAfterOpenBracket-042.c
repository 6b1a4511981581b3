/*
 * AlignAfterOpenBracket: Align
 * AlwaysBreakAfterReturnType: None
 */

static void nested_vmx_disable_intercept_for_x2apic_msr(unsigned long *msr_bitmap_l1,
							unsigned long *msr_bitmap_l0,
							u32 msr, int type)
{
}
