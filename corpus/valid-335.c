/*
 * Switch statement with x macros.
 */

int
main(void)
{
	switch (0) {
X()
	}
}
