/*
 * Attributes confusion.
 */

static void auth_zone_log(uint8_t* name, enum verbosity_value level,
	const char* format, ...) ATTR_FORMAT(printf, 3, 4);
