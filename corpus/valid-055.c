/*
 * Empty first expression in for loop.
 */

int
main(void)
{
	if (nest) {
		if (nest) {
			for (; fcmp(&f.v[i], &f.v[j]) < 0 &&
			    f.v[j].lo == f.v[j + 1].lo; j++)
				continue;
		}
	}
}
