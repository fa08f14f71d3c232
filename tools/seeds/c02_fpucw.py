import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c02-x87-control-word-leaks'; PROP='C02'
NEEDS='a fiber which changes its x87 control word and then switches away'
BREAKS='the x87 control word is saved with a context but not restored: a fiber runs on with the one of whoever ran before it'
EDITS=[('fcontext/src/asm/jump_x86_64_sysv_elf_gas.S','    fldcw    0x4(%rsp)  /* restore x87 control-word */\n','')]
DEMO=PRE+'''
static unsigned short cw() { unsigned short v; __asm__ volatile("fnstcw %0" : "=m"(v)); return v; }
static void setcw(unsigned short v) { __asm__ volatile("fldcw %0" : : "m"(v)); }
static int other(void *, int) { for (int i = 0; i < 3; i++) { setcw(0x0c7f); kfiber_msleep(5); CHECK(cw() == 0x0c7f); } return 0; }
static int main_fiber(void *, int)
{
	unsigned short mine = cw();
	kfiber_create(other, NULL, 0, 0, NULL);
	for (int i = 0; i < 5; i++) { CHECK(cw() == mine); kfiber_msleep(3); }
	CHECK(cw() == mine);
	_exit(0);
}
'''+MAIN
