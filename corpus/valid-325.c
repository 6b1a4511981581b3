/*
 * Too many consecutive new lines in expression.
 */

int
main(void)
{
	if (0) {
		if (1) {
			if (2) {
				for (k = 0; k < sk_ASN1_OBJECT_num(node->parent_policies);
				    k++) {
					X509_POLICY_NODE *parent = x509_policy_level_find(
					    prev,

					    sk_ASN1_OBJECT_value(node->parent_policies, k));
					if (parent != NULL) {
						parent->reachable = 1;
					}
				}
			}
		}
	}
}
