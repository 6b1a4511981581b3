/*
 * AlignAfterOpenBracket: Align
 * AlignOperands: Align
 */

int
main(void)
{
	if (0)
		return bcmgenet_readl(priv->base +
				      priv->hw_params->tbuf_offset + TBUF_CTRL);
	else if (1)
		xxxx = bcmgenet_readl(priv->base +
				      priv->hw_params->tbuf_offset + TBUF_CTRL,
				      priv->data);
	else if (2)
		bcmgenet_readl(
		    priv->base + priv->hw_params->tbuf_offset + TBUF_CTRL);
	else if (3)
		return cccccccccccccccccccccccccccc(
		    ddd, eeeee, fffff, sizeof(ggggggggggg));
}
