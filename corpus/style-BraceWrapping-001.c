/*
 * BreakBeforeBraces: Custom
 * BraceWrapping:
 *   AfterEnum: true
 *   AfterFunction: false
 *   AfterStruct: true
 *   AfterUnion: true
 */

enum {
	e,
};

int
main(void)
{
}

struct s {
	int s;
};

union
{
	int u;
};
