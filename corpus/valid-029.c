/*
 * Attributes
 */

int	main(void)
	__attribute__((always_inline))
	__attribute__((always_inline));

int
main(void)
	__attribute__((always_inline))
	__attribute__((always_inline))
{
	return 0;
}
