/*
 * Long unary expression.
 */

int
main(void)
{
	if (0) {
		if (1) {
			const struct regress_invocation *ri = &r->invocations[i];
		}
	}
}
