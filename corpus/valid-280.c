/*
 * Long expression.
 */

int
main(void)
{
	if (0) {
		if (1) {
			aaaaaa aaaaaat = aaaaaaaaaaaaaaaaaaaaaaaaaaa(aaaaaaaaaaaaaaaaaa(aaa,i),
			    aaaaaaaaaaaaaaaaaaaa,
			    aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa,
			    &aaaaa);
		}
	}
}
