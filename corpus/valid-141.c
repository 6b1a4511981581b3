/*
 * Long expression, honor optional line.
 */

int
main(void)
{
	if (nest) {
		sregs[VCPU_REGS_CS].vsi_ar = (attr & 0xff) | ((attr << 4) &
		    0xf000);
	}
}
