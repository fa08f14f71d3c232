import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c18-v6-prefix-compared'; PROP='C18'
NEEDS='two different IPv6 addresses with the same first four bytes'
BREAKS='only the first bytes of IPv6 addresses are compared: different addresses compare equal'
EDITS=[('include/ksocket.h','	return memcmp(&a->v6.sin6_addr, &b->v6.sin6_addr, sizeof(a->v6.sin6_addr));\n','	return memcmp(&a->v6.sin6_addr, &b->v6.sin6_addr, sizeof(a->v4.sin_addr));\n')]
DEMO=PRE+'''
int main()
{
	sockaddr_i a, b;
	CHECK(ksocket_getaddr("2001:db8::1", 80, AF_UNSPEC, AI_NUMERICHOST, &a));
	CHECK(ksocket_getaddr("2001:db8::2", 80, AF_UNSPEC, AI_NUMERICHOST, &b));
	CHECK(ksocket_addr_compare(&a, &a) == 0);
	CHECK(ksocket_addr_compare(&a, &b) < 0);
	CHECK(ksocket_addr_compare(&b, &a) > 0);
	_exit(0);
}
'''
