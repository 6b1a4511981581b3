/*
 * AFL
 */

x
idin(d)
{HH1#if 1
i( ((((((((((((
#else

i#else

int	y;

#else

else

int	y;

#endif;
if;
}
