import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c22-choice-does-not-move-on'; PROP='C22'
NEEDS='a busy selector skipped by the choice, and further choices afterwards'
BREAKS='the next choice starts at the one just chosen after a skip: one selector gets work twice and the rest wait'
EDITS=[('src/kselector_manager.c','			kgl_selector_index = i + 1;\n			return selector;','			kgl_selector_index += j > 0 ? j : 1;\n			return selector;')]
DEMO=PRE+'''
static int main_fiber(void *, int)
{
	for (int i = 0; i < 300; i++) __sync_fetch_and_add(&get_selector_by_index(1)->count, 1);
	int n[4] = { 0, 0, 0, 0 };
	for (int i = 0; i < 90; i++) { kselector *s = get_perfect_selector(); for (int k = 0; k < 4; k++) if (s == get_selector_by_index(k)) n[k]++; }
	CHECK(n[1] == 0);
	CHECK(n[0] == 30 && n[2] == 30 && n[3] == 30);
	_exit(0);
}
int main()
{
	kasync_init();
	selector_manager_init(4, true);
	kfiber_create2(get_selector_by_index(0), main_fiber, NULL, 0, 0, NULL);
	selector_manager_start(NULL, false);
	return 0;
}
'''
