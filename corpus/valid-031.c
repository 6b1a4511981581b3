/*
 * Align function declarations.
 */

struct buffer	*f1(void);
void		 f2(void);
