/*
 * Invalid brace initializers.
 */

STATIC const struct usbd_bus_methods dwc2_bus_methods = {
	.=	dwc2_open,
};
