/*
 * AlignAfterOpenBracket: Align
 * AlwaysBreakAfterReturnType: All
 */

static void
dmadesc_set_length_status(struct bcmgenet_priv *priv,
			  void __iomem *d, u32 value);

static void
dmadesc_set_length_status(struct bcmgenet_priv *priv,
			  void __iomem *d, u32 value)
{
}
