/*
 * Usage of cdefs.h macros.
 */

__BEGIN_HIDDEN_DECLS

struct X509_VERIFY_PARAM_ID_st {
	int poisoned;
};

__END_HIDDEN_DECLS

__BEGIN_HIDDEN_DECLS
extern int __sfvwrite(FILE *, struct __suio *);
wint_t __fputwc_unlock(wchar_t wc, FILE *fp);
__END_HIDDEN_DECLS
