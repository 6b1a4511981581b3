/*
 * Cast in brace initializers.
 */

struct wsmouse_parameters	cfg_tapping = {
	(struct wsmouse_param[]){
		{ WSMOUSECFG_TAP_ONE_BTNMAP,	0 },
		{ WSMOUSECFG_TAP_TWO_BTNMAP,	0 },
		{ WSMOUSECFG_TAP_THREE_BTNMAP,	0 },
	},
	3
};
