/*
 * Align function prototypes.
 */

int			  f1(void);
struct foo		 *f2(void);
char			**f3(void);
char const *char	 *f4(void);

void	baz(void);

int
main(void)
{
}
