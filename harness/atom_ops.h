enum { A_ADD, A_ADDP, A_INC, A_DEC, A_INCL, A_DECL, A_AND, A_OR, A_ANDL, A_ORL, A_SWAP, A_CAS, A_SPININIT, A_SPIN, A_SPINY, A_SPINTRY, A_SPINFREE,
       A_PTRINIT, A_PTR, A_PTRY, A_PTRTRY, A_PTRSET, A_PTRSETLK, A_PTRFREE, A_N };
static inline uint64_t atom_tag(uint64_t i) { return (i % 65536) | ((i / 65536) << 16) | (((7 * i) % 65536) << 32) | ((i % 251) << 48); }
uint64_t atom_do(int o, uint64_t *p, uint64_t x, uint64_t y);
void atom_many(int o, uint64_t *p, uint64_t d, int k, uint64_t *out, int tag);
void atom_section(int o, uint64_t *p, int k, long *count, int *inside, int *most);
