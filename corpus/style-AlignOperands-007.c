/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 */

int
main(void)
{
	n = bcmgenet_readl(
	    sc);

	x =
	    1;

	bcmgenet_readl(
	    priv->base + priv->hw_params->tbuf_offset + TBUF_CTRL);
}
