/*
 * Group variable declarations.
 */

int
main(void)
{
	int i, prev = -1, orflags, cnt;
	int fn_opt, fn_nid;
	ASN1_OBJECT *fn;
	ASN1_STRING *val;
	X509_NAME_ENTRY *ent;
	char objtmp[80];
	const char *objbuf;
	int outlen, len;
	char *sep_dn, *sep_mv, *sep_eq;
	int sep_dn_len, sep_mv_len, sep_eq_len;

	int		 i, prev = -1, orflags, cnt;
	int		 fn_opt, fn_nid;
	ASN1_OBJECT	*fn;
	int		 outlen, len;
	char		*sep_dn, *sep_mv, *sep_eq;
	int		 sep_dn_len, sep_mv_len, sep_eq_len;
}
