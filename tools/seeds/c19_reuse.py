import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c19-last-chunk-reused'; PROP='C19'
NEEDS='a chunk appended by the caller which is smaller than the chunk size of the buffer, drained completely, and more written afterwards'
BREAKS='the drained chunk is kept for writing as if it had the size of the own chunks: writes run over its end'
EDITS=[('src/kbuf.c','''			kbuf* next = rw_buffer->head->next;
			xfree(rw_buffer->head->data);
			xfree(rw_buffer->head);
			rw_buffer->head = next;
			if (rw_buffer->head == NULL) {
''','''			kbuf* next = rw_buffer->head->next;
			if (next == NULL && rw_buffer->total_len == 0) {
				//keep the last one for what is written next
				rw_buffer->head->used = 0;
				rw_buffer->read_hot = rw_buffer->write_hot = rw_buffer->head->data;
				return false;
			}
			xfree(rw_buffer->head->data);
			xfree(rw_buffer->head);
			rw_buffer->head = next;
			if (rw_buffer->head == NULL) {
''')]
DEMO=PRE+'''
#include <malloc.h>
int main()
{
	krw_buffer *b = krw_buffer_new(4096);
	kbuf *k = (kbuf *)malloc(sizeof(kbuf)); memset(k, 0, sizeof(*k));
	k->data = (char *)malloc(40); memcpy(k->data, "hello", 5); k->used = 5;
	krw_append(b, k);
	char out[16]; CHECK(krw_read(b, out, 16) == 5 && !memcmp(out, "hello", 5));
	int len = 0; char *w = krw_get_write_buffer(b, &len);
	CHECK(w && len > 0 && (size_t)len <= malloc_usable_size(w));
	krw_buffer_destroy(b);
	_exit(0);
}
'''
