import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c21-erase-leaves-red-sibling'; PROP='C21'
NEEDS='a deletion whose repair meets a red sibling on the left'
BREAKS='the black sibling takes no colour from its new place, so the tree slowly loses its balance'
EDITS=[('src/krbtree.c','''				rb_set_color(other, rb_color(parent));
				rb_set_black(parent);
				rb_set_black(other->rb_left);
				__rb_rotate_right(parent, root);
''','''				rb_set_black(parent);
				rb_set_black(other->rb_left);
				__rb_rotate_right(parent, root);
''')]
DEMO=PRE+'''
#include <math.h>
static int cmp(const void *k, const void *d) { return (int)((long)k - (long)d); }
static int height(struct krb_node *n) { if (!n) return 0; int a = height(n->rb_left), b = height(n->rb_right); return 1 + (a > b ? a : b); }
static int blacks(struct krb_node *n, bool red)
{
	if (!n) return 1;
	bool r = !(n->rb_parent_color & 1);
	CHECK(!(r && red));
	int a = blacks(n->rb_left, r), b = blacks(n->rb_right, r);
	CHECK(a == b);
	return a + (r ? 0 : 1);
}
int main()
{
	unsigned x = 12345; static int in[4000]; int n = 0;
	struct krb_tree *t = rbtree_create();
	for (int i = 0; i < 60000; i++) {
		x = x * 1103515245 + 12345; long k = 1 + (x >> 8) % 1500; int fl = 0;
		if ((i / 3000) % 2 == 0) { struct krb_node *e = rbtree_insert(t, (void *)k, &fl, cmp); if (fl) { e->data = (void *)k; n++; } }
		else { struct krb_node *e = rbtree_find(t, (void *)k, cmp); if (e) { rbtree_remove(t, e); n--; } }
		if (i % 50 == 0) { CHECK(height(t->root.rb_node) <= 2 * log2(n + 1) + 1e-9); blacks(t->root.rb_node, false); }
	}
	_exit(0);
}
'''
