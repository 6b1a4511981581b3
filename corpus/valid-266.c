/*
 * Blank line at beginning of function call expression.
 */

int
main(void)
{
	if (0)
		bcmgenet_readl(

		    priv->base + priv->hw_params->tbuf_offset + TBUF_CTRL);
}
