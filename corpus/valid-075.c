/*
 * Declarations in for statement.
 */

int
main(void)
{
	for (struct s *s = 0x0; s != NULL; s++)
		continue;
}
