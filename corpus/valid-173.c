/*
 * Mixed designated and positional initializers.
 */

static const struct dc_plane_cap plane_cap = {
	.type = DC_PLANE_TYPE_DCN_UNIVERSAL,
	16
};
