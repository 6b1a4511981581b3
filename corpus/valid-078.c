/*
 * Expression with a type as an argument.
 */

int
main(void)
{
	args = va_arg(ap, register_t *);
}
