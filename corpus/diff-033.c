struct {
	int		 x;
};
