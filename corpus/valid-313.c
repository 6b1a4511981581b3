/*
 * Declarations sense alignment.
 */

int
vmm_quiesce_vmx(void)
{
	struct vm		*vm;
	struct vcpu		*vcpu;
	int			 err;
}
