/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 */

int
main(void)
{
	int x = bcmgenet_readl(data,
			       offset);
}
