import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c29-half-word-swapped-as-word'; PROP='C29'
NEEDS='a compare-and-swap of a 16 bit counter whose neighbour in memory is not zero'
BREAKS='the 16 bit compare-and-swap works on the whole 32 bit word: it fails or overwrites depending on the neighbour'
EDITS=[('include/katom.h','return __sync_bool_compare_and_swap((int16_t *)var, compare, value);','return __sync_bool_compare_and_swap((int32_t *)var, compare, value);')]
DEMO=PRE+'''
#include "katom.h"
int main()
{
	uint16_t c[4] __attribute__((aligned(8))) = { 5, 7, 9, 0 };
	CHECK(katom_cas16(&c[2], 9, 10)); CHECK(c[2] == 10);
	CHECK(katom_cas16(&c[0], 5, 6)); CHECK(c[0] == 6 && c[1] == 7);
	CHECK(!katom_cas16(&c[0], 5, 8));
	return 0;
}
'''
