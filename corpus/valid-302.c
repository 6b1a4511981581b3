/*
 * No hard line before function annotation using cpp x macros.
 */

int
X509_check_purpose(X509 *x, int id, int ca)
{
}
LCRYPTO_ALIAS(X509_check_purpose)

uint32_t
X509_get_extension_flags(X509 *x)
{
}
LCRYPTO_ALIAS(X509_get_extension_flags)
