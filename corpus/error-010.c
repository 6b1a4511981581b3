/*
 * AFL
 */

icluding p[s	DIR_CMR &oevoidvoidt/(vint)
{&	�stDIR_CMR &&
Zit oin(t/ffp oin(vint)
{&	DIR_CMR &&
	   &oevoidvoidt/Zit oin(t/fiNEW) }
}
