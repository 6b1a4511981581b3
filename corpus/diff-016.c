int	x;
int y;
