/*
 * Function pointer type regression in lexer_peek_if_func_ptr().
 */

int
main(void)
{
	switch (hidpp20_battery_status_is_charging(*status)) {
	}
}
