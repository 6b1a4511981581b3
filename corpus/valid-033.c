/*
 * Align nested struct declarations.
 */

struct s {
	struct {
		int	s_x;
	} s_s;
};
