/*
 * AlignAfterOpenBracket: Align
 * AlwaysBreakAfterReturnType: None
 */

static enum nested_evmptrld_status nested_vmx_handle_enlightened_vmptrld(
    struct kvm_vcpu *vcpu, bool from_launch)
{
}
