/*
 * Brace initializers with x macros.
 */

static const struct ucc_keysym ucc_keysyms[] = {
	/* 0x0000 Unassigned */

	/* 0x016B-0x016F Reserved */
	N(0x0170,	"Sub-channel",			0,	0)
	N(0x0171,	"Sub-channel Increment",	0,	0)
	N(0x0172,	"Sub-channel Decrement",	0,	0)
	N(0x0173,	"Alternate Audio Increment",	0,	0)
	N(0x0174,	"Alternate Audio Decrement",	0,	0)

	/* 0x0175-0x017F Reserved */
	N(0x0180,	"Application Launch Buttons",		0,	0)
	N(0x0181,	"AL Launch Button Configuration Tool",	0,	0)
	N(0x0182,	"AL Programmable Button Configuration",	0,	0)
	N(0x0183,	"AL Consumer Control Configuration",	0,	0)

	/* 0x0007-0x001f Reserved */
};
