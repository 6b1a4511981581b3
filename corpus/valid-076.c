/*
 * Expression with a type as an argument.
 */

int
main(void)
{
	dtp = va_arg(ap, struct dt_probe *);
}
