/*
 * AFL
 */

void
malloc(void)
{
#ifdef DIAGNOSTIC
	if (1) {
	}
#endif /*GNOSTIC */

#ifdef KMElls+
;
#else
outS();
;
#else
#endif
}
