/*
 */in(1)se
	,;
#endif
}
