/*
 * Usage of cdefs.h macros regression.
 */

BN_ULONG
bn_mul_add_words(BN_ULONG *rp, const BN_ULONG *ap, int num, BN_ULONG w)
{
}
