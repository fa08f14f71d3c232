import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c20-array-grows-too-little'; PROP='C20'
NEEDS='several elements pushed at once, more than the array was made for, onto an array that is not empty'
BREAKS='the new room is only enough for the new elements: the last of them lie outside of it, over another allocation'
EDITS=[('src/kmalloc.c','			nalloc = 2 * ((n >= a->nalloc) ? n : a->nalloc);\n','			nalloc = 2 * a->nalloc;\n			if (nalloc < n) {\n				nalloc = n;\n			}\n')]
DEMO=PRE+'''
int main()
{
	kasync_init();
	kgl_pool_t *p = kgl_create_pool(4096);
	kgl_array_t *a = kgl_array_create(p, 4, 4);
	for (int i = 0; i < 3; i++) *(int *)kgl_array_push(a) = 1000 + i;
	kgl_pnalloc(p, 3);
	int *e = (int *)kgl_array_push_n(a, 8);
	CHECK(a->nelts <= a->nalloc);
	char *other = (char *)kgl_pnalloc(p, 32); memset(other, 7, 32);
	for (int i = 0; i < 8; i++) e[i] = 2000 + i;
	for (int i = 0; i < 32; i++) CHECK(other[i] == 7);
	CHECK((char *)(e + 8) <= other || other + 32 <= (char *)e);
	_exit(0);
}
'''
