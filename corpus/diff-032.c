#define FOO 1

#define BAR 1 + \
		22 + \
		33
